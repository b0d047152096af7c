// Compiles random stylesheets, runs each against documents and records what came out.
//   xslt_driver run <profile> <seed> <n> <dir> <out>   profile: rules vars loops tree
#include "dom_gen.hpp"
#include "xslt_gen.hpp"
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <XSLT/XSLT.hpp>
using namespace vf;
namespace XT = Arabica::XSLT;
typedef XT::StylesheetCompiler<S> Compiler;
typedef XT::Stylesheet<S> Sheet;

static void put(const S& f, const S& t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }
static int items;
static S nodes(const Node& parent);
static S node(const Node& n) {
  ++items;
  switch (n.getNodeType()) {
    case NB::ELEMENT_NODE: {
      Arabica::DOM::NamedNodeMap<S> m = n.getAttributes();
      S a;
      for (unsigned i = 0; i < m.getLength(); ++i) {
        Node x = m.item(i);
        if (x.getNamespaceURI() == XMLNSNS || x.getNodeName() == "xmlns" || x.getNodeName().compare(0, 6, "xmlns:") == 0) continue;
        a += (a == "" ? "[" : ",[") + jstr(x.getNamespaceURI()) + "," + jstr(x.getLocalName() == "" ? "?" + x.getNodeName() : x.getLocalName()) + "," + jstr(x.getNodeValue()) + "]";
      }
      return "[\"e\"," + jstr(n.getNamespaceURI()) + "," + jstr(n.getLocalName() == "" ? "?" + n.getNodeName() : n.getLocalName()) + ",[" + a + "]," + nodes(n) + "]";
    }
    case NB::COMMENT_NODE: return "[\"c\"," + jstr(n.getNodeValue()) + "]";
    case NB::PROCESSING_INSTRUCTION_NODE: return "[\"p\"," + jstr(n.getNodeName()) + "," + jstr(n.getNodeValue()) + "]";
    case NB::TEXT_NODE: case NB::CDATA_SECTION_NODE: return "[\"t\"," + jstr(n.getNodeValue()) + "]";
    default: return "[\"?\"," + num(n.getNodeType()) + "]";
  }
}
static S nodes(const Node& parent) {
  S o, run;
  bool inRun = false;
  auto flush = [&]() { if (inRun && run != "") o += (o == "" ? "" : ",") + ("[\"t\"," + jstr(run) + "]"); inRun = false; run = ""; };
  for (Node c = parent.getFirstChild(); c != 0; c = c.getNextSibling()) {
    if (c.getNodeType() == NB::TEXT_NODE || c.getNodeType() == NB::CDATA_SECTION_NODE) { inRun = true; run += c.getNodeValue(); ++items; }
    else { flush(); o += (o == "" ? "" : ",") + node(c); }
  }
  flush();
  return "[" + o + "]";
}
// for every element holding text: its name, whether all of the text is in CDATA sections, whether some of it is
static void sections(const Node& e, S& o) {
  bool all = true, any = false, some = false;
  for (Node c = e.getFirstChild(); c != 0; c = c.getNextSibling()) {
    if (c.getNodeType() == NB::ELEMENT_NODE) sections(c, o);
    else if (c.getNodeType() == NB::TEXT_NODE && c.getNodeValue() != "") { some = true; all = false; }
    else if (c.getNodeType() == NB::CDATA_SECTION_NODE) { some = true; any = true; }
  }
  if (some) o += (o == "" ? "[" : ",[") + jstr(e.getNamespaceURI()) + "," + jstr(e.getLocalName()) + "," + (all ? "true" : "false") + "," + (any ? "true" : "false") + "]";
}
static S jnum(double v) {
  double q = v * 16;
  return "{\"k\":\"fin\",\"n\":" + num((long long)q) + "}";
}
struct Passed { S name; char t; double n; S s; bool b; };
int main(int argc, char** argv) {
  std::vector<S> a(argv + 1, argv + argc);
  if (a.size() != 6 || a[0] != "run") { std::cerr << "usage\n"; return 3; }
  Profile p;
  //            mods tpl named glob keys rule var loop tree err
  if (a[1] == "rules") p = Profile{4, 7, 2, 1, 1, 60, 5, 15, 8, 5};
  else if (a[1] == "vars") p = Profile{3, 3, 3, 6, 1, 25, 40, 20, 12, 20};
  else if (a[1] == "loops") p = Profile{2, 4, 2, 2, 2, 25, 10, 60, 10, 5};
  else if (a[1] == "tree") p = Profile{2, 4, 2, 1, 0, 10, 8, 15, 60, 10};
  else return 3;
  int seed = atoi(a[2].c_str()), n = atoi(a[3].c_str());
  S dir = a[4];
  Rng r(seed * 7919 + a[1][0]);
  std::ofstream out(a[5].c_str());
  std::ofstream sheets((dir + "/sheets.txt").c_str());      // for reading, the files are written over
  std::ostringstream sunk;
  for (int i = 0; i < n; ++i) {
    XsltGen g(r, p);
    bool text = r.chance(8);
    bool omit = r.chance(70);
    S alone = r.chance(70) ? "" : r.chance(50) ? "yes" : "no", cdata, cj;
    static const std::vector<std::vector<S>> cd = {{"x", "", "x"}, {"y", "", "y"}, {"p:x", "u1", "x"}, {"q:y", "u2", "y"}, {"a", "", "a"}, {"p:b", "u1", "b"}, {"z", "", "z"}};
    if (r.chance(40))
      for (auto& q : cd)
        if (r.chance(40)) { cdata += (cdata == "" ? "" : r.chance(20) ? "\n  " : " ") + q[0]; cj += (cj == "" ? "[" : ",[") + jstr(q[1]) + "," + jstr(q[2]) + "]"; }
    S output = "<xsl:output" + S(omit ? " omit-xml-declaration=\"yes\"" : r.chance(30) ? " omit-xml-declaration=\"no\"" : "")
             + (alone == "" ? "" : " standalone=\"" + alone + "\"") + (cdata == "" ? "" : " cdata-section-elements=\"" + cdata + "\"")
             + (text ? " method=\"text\"" : r.chance(50) ? " method=\"xml\"" : "") + "/>\n";
    g.stylesheet(output);
    for (auto& f : g.files) put(dir + "/" + f.first, f.second);
    S all;
    for (auto& f : g.files) all += "== " + f.first + "\n" + f.second;
    sheets << "#### " << i << "\n" << all << "\n";
    std::vector<Passed> ps;
    for (auto& v : g.globalParams) {
      if (v[0] == 'x' || r.chance(50)) continue;
      Passed q; q.name = v; q.t = XsltGen::typeOf(v); q.n = (r.below(40) - 10) / 2.0; q.s = g.g.strings[r.below((int)g.g.strings.size())]; q.b = r.chance(50);
      ps.push_back(q);
    }
    if (r.chance(10)) { Passed q; q.name = "unused"; q.t = 'S'; q.s = "u"; ps.push_back(q); }
    S pj;
    for (auto& q : ps)
      pj += (pj == "" ? "" : ",") + jstr(q.name) + ":" + (q.t == 'N' ? "{\"t\":\"n\",\"v\":" + jnum(q.n) + "}" : q.t == 'B' ? "{\"t\":\"b\",\"v\":" + S(q.b ? "true" : "false") + "}" : "{\"t\":\"s\",\"v\":" + jstr(q.s) + "}");
    inProgress("compiling " + all);
    Compiler comp;
    Arabica::SAX::InputSource<S> src(dir + "/m1.xsl");
    std::unique_ptr<Sheet> sheet = comp.compile(src);
    S head = "{\"k\":\"t\",\"i\":" + num(i) + ",\"M\":" + g.mods + ",\"passed\":{" + pj + "},\"meth\":\"" + (text ? "text" : "xml") + "\",\"omit\":" + (omit ? "true" : "false") + ",\"alone\":" + jstr(alone) + ",\"cd\":[" + cj + "]";
    int nd = 1 + r.below(3);
    if (sheet.get()) {
      for (auto& q : ps) {
        if (q.t == 'N') sheet->set_parameter(q.name, q.n);
        else if (q.t == 'B') sheet->set_parameter(q.name, q.b);
        else sheet->set_parameter(q.name, q.s);
      }
      sheet->set_error_output(sunk);
    }
    std::vector<Doc> docs;
    for (int d = 0; d < nd; ++d) {
      DomGen dg(r);
      dg.names = {"a", "b", "c", "k"}; dg.targets = {"t", "u-1"}; dg.prefixes = {{"p", "u1"}, {"q", "u2"}};
      dg.texts = {"1", "2", "10", "ab", " b", "a", "x", "B", " ", "3", "&", "]]>"}; dg.avals = {"", "1", "2", "10", "a", "b", "ab", "x", "\"<", "3"};
      dg.budget = 3 + r.below(8); dg.runs = false; dg.decls = r.chance(30);
      bool again = d > 0 && r.chance(25);
      if (!again) docs.push_back(dg.document(false));
      Doc doc = again ? docs[r.below((int)docs.size())] : docs.back();
      Raw raw(doc);
      S line = head + ",\"R\":" + raw.json();
      inProgress(line + "}\n" + all);
      if (!sheet.get()) { out << line << ",\"ok\":false,\"err\":" << jstr("not compiled: " + comp.error()) << ",\"same\":true,\"tree\":[],\"read\":[],\"text\":\"\",\"decl\":\"\",\"sect\":[]}\n"; break; }
      bool ok = true;
      S err, tree = "[]", read = "[]", txt;
      items = 0;
      XT::DOMSink<S> dom;
      try { sheet->set_output(dom); sheet->execute(doc); if (dom.node() != 0) tree = nodes(dom.node()); }
      catch (const std::exception& e) { ok = false; err = e.what(); }
      if (items > 400) continue;
      std::ostringstream os;
      bool ok2 = true;
      S err2;
      try { XT::StreamSink<S> ss(os); sheet->set_output(ss); sheet->execute(doc); sheet->set_output(dom); txt = os.str(); }
      catch (const std::exception& e) { ok2 = false; err2 = e.what(); sheet->set_output(dom); }
      S decl, sect;
      if (!text && txt.compare(0, 5, "<?xml") == 0 && txt.find("?>\n") != S::npos) { size_t e = txt.find("?>\n") + 3; decl = txt.substr(0, e); txt = txt.substr(e); }
      if (ok && ok2 && !text) {
        Arabica::SAX2DOM::Parser<S> dp;
        Arabica::SAX::CatchErrorHandler<S> eh;
        dp.setErrorHandler(eh);
        std::istringstream is("<w>" + txt + "</w>");
        Arabica::SAX::InputSource<S> ss(is);
        bool good = dp.parse(ss);
        if (eh.errorsReported() || !good) { read = "[[\"t\",\"not well formed\"]]"; err = eh.errors(); }
        else { read = nodes(dp.getDocument().getDocumentElement()); sections(dp.getDocument().getDocumentElement(), sect); }
      }
      out << line << ",\"ok\":" << (ok && ok2 ? "true" : "false") << ",\"same\":" << (ok == ok2 ? "true" : "false") << ",\"err\":" << jstr(err == "" ? err2 : err)
          << ",\"tree\":" << tree << ",\"read\":" << read << ",\"text\":" << jstr(txt) << ",\"decl\":" << jstr(decl) << ",\"sect\":[" << sect << "]}\n";
    }
  }
  return 0;
}
