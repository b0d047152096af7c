// Runs the XML reader that is compiled in over generated documents and records every event it reports.
//   sax_driver PROFILE SEED COUNT OUT        profiles: wf dtd bad throw ext
#include <cstring>
#include <SAX/ArabicaConfig.hpp>
#include <SAX/ParserConfig.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/InputSource.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include "xml_gen.hpp"
#include <memory>
using namespace vf;
namespace SAX = Arabica::SAX;
struct Stop { int n; };

struct Rec : SAX::DefaultHandler<S> {
  typedef SAX::DefaultHandler<S> Base;
  std::vector<S> ev; S text; bool inText; std::vector<S> pfx; int starts, throwAt; S hs; XDoc* doc; std::vector<S> asked;
  Rec() { clear(); }
  void clear() { ev.clear(); text = ""; inText = false; pfx.clear(); starts = 0; throwAt = 0; doc = 0; }
  void flush() {
    if (inText) { inText = false; if (!text.empty()) ev.push_back("[\"ch\"," + jstr(escaped(text)) + "]"); text = ""; }
    if (!pfx.empty()) { ev.push_back(jarr(pfx)); pfx.clear(); }
  }
  void add(std::initializer_list<S> l) { flush(); std::vector<S> v; for (auto& s : l) v.push_back(jstr(escaped(s))); ev.push_back(jarr(v)); }
  virtual void setDocumentLocator(const SAX::Locator<S>&) {}
  virtual void startDocument() { add({"sd"}); }
  virtual void endDocument() { add({"ed"}); }
  void map(const char* what, const S& s) { if (inText || pfx.empty() || pfx[0] != jstr(what)) { flush(); pfx.push_back(jstr(what)); } pfx.push_back(s); }
  virtual void startPrefixMapping(const S& p, const S& u) { map("spm", "[" + jstr(escaped(p)) + "," + jstr(escaped(u)) + "]"); }
  virtual void endPrefixMapping(const S& p) { map("epm", "[" + jstr(escaped(p)) + "]"); }
  virtual void startElement(const S& u, const S& l, const S& q, const SAX::Attributes<S>& a) {
    flush(); std::vector<S> v;
    for (int i = 0; i < a.getLength(); ++i) v.push_back(jarr({jstr(escaped(a.getURI(i))), jstr(escaped(a.getLocalName(i))), jstr(escaped(a.getQName(i))), jstr(escaped(a.getValue(i)))}));
    ev.push_back("[\"se\"," + jstr(escaped(u)) + "," + jstr(escaped(l)) + "," + jstr(escaped(q)) + "," + jarr(v) + "]");
    if (++starts == throwAt) { Stop s; s.n = starts; throw s; }
  }
  virtual void endElement(const S& u, const S& l, const S& q) { add({"ee", u, l, q}); }
  void chars(const S& s) { if (!inText) flush(); inText = true; text += s; }
  virtual void characters(const S& s) { chars(s); }
  virtual void ignorableWhitespace(const S& s) { chars(s); }
  virtual void processingInstruction(const S& t, const S& d) { add({"pi", t, d}); }
  virtual void skippedEntity(const S& n) { add({"sk", n}); }
  virtual void notationDecl(const S& n, const S& p, const S& s) { add({"not", n, p, s}); }
  virtual void unparsedEntityDecl(const S& n, const S& p, const S& s, const S& m) { add({"uent", n, p, s, m}); }
  virtual void startDTD(const S& n, const S& p, const S& s) { add({"sdtd", n, p, s}); }
  virtual void endDTD() { add({"edtd"}); }
  virtual void startEntity(const S& n) { add({"sen", n}); }
  virtual void endEntity(const S& n) { add({"een", n}); }
  virtual void startCDATA() { add({"sc"}); }
  virtual void endCDATA() { add({"ec"}); }
  virtual void comment(const S& t) { add({"cm", t}); }
  virtual void elementDecl(const S& n, const S& m) { S mm; for (char c : m) if (c != ' ') mm += c; add({"eld", n, mm}); }
  virtual void attributeDecl(const S& e, const S& a, const S& ty, const S& m, const S& v) { S t2; for (char c : ty) if (c != ' ') t2 += c; add({"atd", e, a, t2, m, v}); }
  virtual void internalEntityDecl(const S& n, const S& v) { add({"ient", n, v}); }
  virtual void externalEntityDecl(const S& n, const S& p, const S& s) { add({"xent", n, p, s}); }
  virtual void warning(const SAX::SAXParseException<S>&) {}
  virtual void error(const SAX::SAXParseException<S>&) {}
  virtual void fatalError(const SAX::SAXParseException<S>&) { add({"fatal"}); }
  virtual InputSourceT resolveEntity(const S& pub, const S& sys) {
    InputSourceT is; is.setPublicId(pub); is.setSystemId(sys); S key = sys.substr(sys.rfind('/') == S::npos ? 0 : sys.rfind('/') + 1);
    auto i = doc->external.find(key);
    asked.push_back(key);
    is.setByteStream(std::unique_ptr<std::istream>(new std::istringstream(i == doc->external.end() ? S() : i->second)));
    return is;
  }
};
typedef SAX::XMLReader<S> Reader; 
struct Session {
  std::unique_ptr<Reader> rd; Rec rec; S hs; bool ns, px; bool ext;
  void open(Rng& r, bool extv) {
    rd.reset(new Reader); hs = ""; ext = extv;
    ns = true; px = true; 
  }
  void handlers(const S& want) {
    for (char c : want) {
      if (hs.find(c) != S::npos) continue;
      hs += c;
      if (c == 'c') rd->setContentHandler(rec); else if (c == 'l') rd->setLexicalHandler(rec); else if (c == 'd') rd->setDeclHandler(rec); else if (c == 't') rd->setDTDHandler(rec); else if (c == 'e') rd->setErrorHandler(rec); else if (c == 'r') rd->setEntityResolver(rec);
    }
  }
};
int main(int argc, char** argv) {
  if (argc != 5) return 3;
  S prof = argv[1]; int count = atoi(argv[3]); std::ofstream out(argv[4]); Rng r(atoi(argv[2]));
  SAX::FeatureNames<S> fn; Session s; int left = 0;
  S all = prof == "ext" ? "cldter" : "cldte";
  for (int n = 0; n < count; ++n) {
    if (left == 0) { s.open(r, prof == "ext"); left = 1 + r.below(6); S h = r.chance(60) ? all : "cr"; for (char c : all) if (r.chance(60)) h += c; s.handlers(h); s.ns = s.px = false;
      }
    else if (r.chance(20)) s.handlers(all.substr(r.below(all.size())));
    --left;
    int f = r.below(4);
    // features are remembered from parse to parse
    if (f != 3 || !s.ns) { s.ns = f != 2 ; s.px = f != 1;
      if (s.ns) { s.rd->setFeature(fn.namespaces, true); s.rd->setFeature(fn.namespace_prefixes, s.px); } else { s.rd->setFeature(fn.namespace_prefixes, true); s.rd->setFeature(fn.namespaces, false); s.ns = false; s.px = true; } }
    bool extOn = false;
    if (prof == "ext") { extOn = s.hs.find('r') != S::npos && r.chance(70);
#ifdef ARABICA_USE_EXPAT
      s.rd->setFeature(fn.external_general, extOn);
#else
      extOn = true; s.handlers("r");
#endif
    }
    XOpts o; o.size = 3 + r.below(14); o.dtd = prof == "dtd" || prof == "ext" || r.chance(15); o.bad = prof == "bad" || (prof != "throw" && r.chance(8)); o.ext = prof == "ext";
    o.extId = o.ext && extOn; int e = r.below(6); o.encoding = e == 0 ? "ISO-8859-1" : e == 1 ? "UTF-16" : e == 2 ? "UTF-8" : ""; o.latin = e == 0;
    XGen g(r, o); XDoc& d = g.make(); S text = encode(d.markup, o.encoding);
    if (r.chance(25) && o.encoding != "UTF-16") {      // put the edge of a read buffer somewhere in the document
      size_t edge = r.chance(50) ? 10240 : 4096; size_t from = g.mark;
      if (o.encoding.empty()) { size_t len = text.size() - from; if (edge > text.size()) { size_t cut = r.chance(25) ? len : r.below(len + 1); text.insert(from, S(edge - from - cut, ' ')); } }
    }
    s.rec.clear(); s.rec.doc = &d; s.rec.throwAt = prof == "throw" && r.chance(60) ? 1 + r.below(4) : 0;
    bool threw = false; S other;
    std::unique_ptr<std::istream> in; if (r.chance(60)) in.reset(new std::istringstream(text)); else in.reset(new DribbleStream(text, n + 1));
    inProgress(text);
    S how = "parse";
    try {
      SAX::InputSource<S> is; is.setByteStream(*in);
#ifdef ARABICA_USE_XERCES
      if (r.chance(30)) {
        how = "progressive"; SAX::XMLPScanToken tok; SAX::ProgressiveParser<S>& pp = *s.rd;
        if (pp.parseFirst(is, tok)) while (pp.parseNext(tok)) ;
      } else
#endif
      s.rd->parse(is);
    } catch (const Stop&) { threw = true; } catch (const std::exception& ex) { other = ex.what(); }
    s.rec.flush();
    out << "{\"how\":" << jstr(how) << ",\"ns\":" << (s.ns ? "true" : "false") << ",\"px\":" << (s.px ? "true" : "false") << ",\"hs\":" << jstrs([&] { std::vector<S> v; for (char c : s.hs) v.push_back(S(1, c)); return v; }())
        << ",\"ext\":" << (extOn ? "true" : "false") << ",\"at\":" << s.rec.throwAt << ",\"threw\":" << (threw ? "true" : "false") << ",\"other\":" << jstr(escaped(other))
        << ",\"doc\":" << json(d) << ",\"ev\":" << jarr(s.rec.ev) << ",\"xml\":" << jstr(escaped(d.markup)) << "}\n";
  }
  std::cout << count << " documents\n";
}
