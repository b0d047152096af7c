// The DOM builder and the DOM writer.
//   domio_driver build SEED COUNT OUT       generated documents, parsed by parsers used again and again
//   domio_driver write SEED COUNT OUT       documents parsed and changed, or made from nothing, written and read back
#include <SAX/ArabicaConfig.hpp>
#include <SAX/ParserConfig.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/io/Stream.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include <SAX/InputSource.hpp>
#include "xml_gen.hpp"
using namespace vf;
namespace SAX = Arabica::SAX; namespace DOM = Arabica::DOM;
typedef DOM::Node<S> Node; typedef DOM::Document<S> Document; typedef DOM::Element<S> Element;
typedef Arabica::SAX2DOM::Parser<S> Parser;
struct Heard : SAX::DefaultHandler<S> {
  int fatal, error; XDoc* doc; Heard() : fatal(0), error(0), doc(0) {}
  virtual void warning(const SAX::SAXParseException<S>&) {}
  virtual void error_(const SAX::SAXParseException<S>&) {}
  virtual void fatalError(const SAX::SAXParseException<S>&) { ++fatal; }
  virtual InputSourceT resolveEntity(const S& pub, const S& sys) {
    InputSourceT is; is.setPublicId(pub); is.setSystemId(sys); S key = sys.substr(sys.rfind('/') == S::npos ? 0 : sys.rfind('/') + 1);
    auto i = doc->external.find(key);
    is.setByteStream(std::unique_ptr<std::istream>(new std::istringstream(i == doc->external.end() ? S() : i->second)));
    return is;
  }
};
static S j(const S& s) { return jstr(escaped(s)); }
static S dump(Node n) {
  S r = "{\"k\":";
  auto kids = [&] { std::vector<S> v; for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) v.push_back(dump(c)); return jarr(v); };
  switch (n.getNodeType()) {
    case DOM::Node_base::ELEMENT_NODE: {
      std::vector<S> at; DOM::NamedNodeMap<S> m = n.getAttributes();
      for (unsigned i = 0; i < m.getLength(); ++i) { Node a = m.item(i); S l = a.getLocalName(); at.push_back(jarr({j(a.getNamespaceURI()), j(l.empty() ? a.getNodeName() : l), j(a.getNodeName()), j(a.getNodeValue())})); }
      S l = n.getLocalName();
      return r + "\"el\",\"u\":" + j(n.getNamespaceURI()) + ",\"l\":" + j(l.empty() ? n.getNodeName() : l) + ",\"q\":" + j(n.getNodeName()) + ",\"at\":" + jarr(at) + ",\"ch\":" + kids() + "}";
    }
    case DOM::Node_base::TEXT_NODE: return r + "\"tx\",\"v\":" + j(n.getNodeValue()) + "}";
    case DOM::Node_base::CDATA_SECTION_NODE: return r + "\"cd\",\"v\":" + j(n.getNodeValue()) + "}";
    case DOM::Node_base::COMMENT_NODE: return r + "\"cm\",\"v\":" + j(n.getNodeValue()) + "}";
    case DOM::Node_base::PROCESSING_INSTRUCTION_NODE: return r + "\"pi\",\"q\":" + j(n.getNodeName()) + ",\"v\":" + j(n.getNodeValue()) + "}";
    case DOM::Node_base::ENTITY_REFERENCE_NODE: return r + "\"er\",\"q\":" + j(n.getNodeName()) + "}";
    case DOM::Node_base::DOCUMENT_NODE: return r + "\"doc\",\"ch\":" + kids() + "}";
    case DOM::Node_base::DOCUMENT_FRAGMENT_NODE: return r + "\"frag\",\"ch\":" + kids() + "}";
    case DOM::Node_base::DOCUMENT_TYPE_NODE: {
      DOM::DocumentType<S> t = static_cast<DOM::DocumentType<S> >(n); std::vector<S> es, ns;
      DOM::NamedNodeMap<S> m = t.getEntities();
      for (unsigned i = 0; i < m.getLength(); ++i) { DOM::Entity<S> e = static_cast<DOM::Entity<S> >(m.item(i)); es.push_back(jarr({j(e.getNodeName()), j(e.getPublicId()), j(e.getSystemId()), j(e.getNotationName())})); }
      m = t.getNotations();
      for (unsigned i = 0; i < m.getLength(); ++i) { DOM::Notation<S> e = static_cast<DOM::Notation<S> >(m.item(i)); ns.push_back(jarr({j(e.getNodeName()), j(e.getPublicId()), j(e.getSystemId())})); }
      return r + "\"dt\",\"q\":" + j(t.getName()) + ",\"pub\":" + j(t.getPublicId()) + ",\"sys\":" + j(t.getSystemId()) + ",\"ents\":" + jarr(es) + ",\"nots\":" + jarr(ns) + "}";
    }
    default: return r + "\"other\",\"v\":" + num(n.getNodeType()) + "}";
  }
}
static void build(Rng& r, int count, std::ofstream& out) {
  std::unique_ptr<Parser> p; int left = 0; SAX::FeatureNames<S> fn; Heard h;
  for (int n = 0; n < count; ++n) {
    if (left == 0) { p.reset(new Parser); left = 1 + r.below(5); p->setErrorHandler(h); }
    --left;
    XOpts o; o.size = 3 + r.below(14); o.dtd = r.chance(60); o.bad = r.chance(15); o.ext = o.dtd && r.chance(50);
    bool extOn = o.ext && r.chance(60); o.extId = extOn; int e = r.below(8); o.encoding = e == 0 ? "ISO-8859-1" : e == 1 ? "UTF-16" : ""; o.latin = e == 0;
    XGen g(r, o); XDoc& d = g.make(); S text = encode(d.markup, o.encoding);
    p->setFeature(fn.external_general, extOn); if (extOn || r.chance(30)) p->setEntityResolver(h);
    h.fatal = h.error = 0; h.doc = &d; S other; bool res = false; inProgress(text);
    try { std::istringstream in(text); SAX::InputSource<S> is(in); res = p->parse(is); } catch (const std::exception& ex) { other = ex.what(); }
    Document doc = p->getDocument();
    out << "{\"op\":\"build\",\"ext\":" << (extOn ? "true" : "false") << ",\"res\":" << (res ? "true" : "false") << ",\"fatal\":" << h.fatal << ",\"other\":" << j(other)
        << ",\"doc\":" << json(d) << ",\"dom\":" << (doc == 0 ? S("{\"k\":\"none\"}") : dump(doc)) << ",\"xml\":" << j(d.markup) << "}\n";
  }
}
struct Mut {
  Rng& r; Document d; Mut(Rng& rr) : r(rr) {}
  S pick(std::initializer_list<const char*> l) { return *(l.begin() + r.below(l.size())); }
  S words(bool attr) {
    S s; int n = r.below(4);
    for (int i = 0; i < n; ++i) s += pick({"x", " ", "\n", "\t", "\r", "\r\n", "<", ">", "&", "\"", "'", "]]>", "]]", "]", "&amp;", "a\xc3\xa9", "\xf0\x9f\x98\x80", "{", "<!--", "--", "?>"});
    return s;
  }
  S plain(const char* bad) { for (;;) { S s = words(false); bool ok = s.find('\r') == S::npos; for (const char* b : {"--", "?>"}) if (*bad == *b && s.find(b) != S::npos) ok = false; if (*bad == '-' && !s.empty() && s.back() == '-') ok = false; if (*bad == '?' && !s.empty() && (s[0] == ' ' || s[0] == '\n' || s[0] == '\t')) ok = false; if (ok) return s; } }
  S uri() { return pick({"u", "v", "w", "u", "v", "http://x/?a=1&b=\"<"}); }
  S name(const S& u) { S l = pick({"a", "b", "c", "\xc3\xa9"}); if (u.empty()) return l; S p = pick({"", "p", "q", "a0", "a1"}); return p.empty() ? l : p + ":" + l; }
  Element element() {
    S u = r.chance(30) ? S() : uri(); Element e = u.empty() && r.chance(50) ? d.createElement(pick({"a", "b", "c"})) : d.createElementNS(u, name(u));
    int n = r.chance(50) ? 0 : 1 + r.below(3); for (int i = 0; i < n; ++i) attr(e);
    return e;
  }
  void attr(Element e) {
    try {
      int w = r.below(10);
      if (w == 0) e.setAttribute(pick({"a", "b", "c"}), words(true));
      else if (w == 1) e.setAttributeNS("http://www.w3.org/XML/1998/namespace", "xml:" + pick({"lang", "foo"}), words(true));
      else { S u = r.chance(25) ? S() : uri(); e.setAttributeNS(u, name(u), words(true)); }
    } catch (const DOM::DOMException&) {}
  }
  Node leaf() {
    int w = r.below(8);
    if (w < 4) return d.createTextNode(words(false));
    if (w == 4) return d.createComment(plain("-"));
    if (w == 5) return d.createProcessingInstruction(pick({"t", "xm", "p\xc3\xa9"}), plain("?"));
    return d.createCDATASection(plain("]"));
  }
  Node any() { if (r.chance(55)) { Element e = element(); int n = r.below(3); for (int i = 0; i < n; ++i) e.appendChild(r.chance(50) ? leaf() : Node(element())); return e; } return leaf(); }
  void collect(Node n, std::vector<Element>& v) { if (n.getNodeType() == DOM::Node_base::ELEMENT_NODE) v.push_back(static_cast<Element>(n)); for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) collect(c, v); }
  void change(int times) {
    for (int i = 0; i < times; ++i) {
      std::vector<Element> es; collect(d, es); Element e = es[r.below(es.size())];
      try {
        switch (r.below(6)) {
          case 0: case 1: case 2: e.insertBefore(any(), r.chance(50) ? e.getFirstChild() : Node()); break;
          case 3: attr(e); break;
          case 4: { Element f = es[r.below(es.size())]; f.appendChild(e); } break;                      // move a subtree among other declarations
          case 5: { DOM::NamedNodeMap<S> m = e.getAttributes(); if (m.getLength()) { DOM::Attr<S> a = static_cast<DOM::Attr<S> >(m.item(r.below(m.getLength()))); if (a.getNodeName().find("xmlns") != 0 || r.chance(30)) e.removeAttributeNode(a); } } break;
        }
      } catch (const DOM::DOMException&) {}
    }
  }
};
static bool hasRef(Node n) { if (n.getNodeType() == DOM::Node_base::ENTITY_REFERENCE_NODE) return true; for (Node c = n.getFirstChild(); c != 0; c = c.getNextSibling()) if (hasRef(c)) return true; return false; }
static void write(Rng& r, int count, std::ofstream& out) {
  Parser p, p2; Heard h; p2.setErrorHandler(h); p.setErrorHandler(h);
  DOM::DOMImplementation<S> di = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  for (int n = 0; n < count; ++n) {
    Mut m(r);
    if (r.chance(50)) {
      S u = r.chance(40) ? S() : m.uri(); m.d = di.createDocument(u, m.name(u), 0);
    } else {
      XOpts o; o.size = 3 + r.below(8); o.dtd = r.chance(15); XGen g(r, o); XDoc& d = g.make(); std::istringstream in(d.markup); SAX::InputSource<S> is(in); p.parse(is); m.d = p.getDocument();
      if (m.d == 0) continue;
    }
    m.change(2 + r.below(12));
    Node what = m.d; S how = "document";
    if (r.chance(25)) { std::vector<Element> es; m.collect(m.d, es); what = es[r.below(es.size())]; how = "element"; }
    else if (r.chance(10)) { DOM::DocumentFragment<S> f = m.d.createDocumentFragment(); std::vector<Element> es; m.collect(m.d, es); Element e = es[r.below(es.size())]; int k = 1 + r.below(4); for (int i = 0; i < k; ++i) f.appendChild(i == 0 ? e.cloneNode(true) : m.any()); what = f; how = "fragment"; }
    if (hasRef(what)) continue;
    std::ostringstream os; os << what; S text = os.str(); if (how == "fragment") text = "<w>" + text + "</w>";
    std::ostringstream os2; os2 << what;
    h.fatal = 0; inProgress(text); S other;
    try { std::istringstream in(text); SAX::InputSource<S> is(in); p2.parse(is); } catch (const std::exception& ex) { other = ex.what(); }
    Document back = p2.getDocument();
    Node rd = back; if (back != 0 && how == "element") rd = back.getDocumentElement(); 
    out << "{\"op\":\"write\",\"how\":" << j(how) << ",\"other\":" << j(other) << ",\"same\":" << (os2.str() == os.str() ? "true" : "false") << ",\"fatal\":" << h.fatal << ",\"dom\":" << dump(what) << ",\"back\":" << (back == 0 ? S("{\"k\":\"none\"}") : dump(rd)) << ",\"xml\":" << j(text) << "}\n";
  }
}
int main(int argc, char** argv) {
  if (argc != 5) return 3;
  S prof = argv[1]; int count = atoi(argv[3]); std::ofstream out(argv[4]); Rng r(atoi(argv[2]));
  if (prof == "build") build(r, count, out); else if (prof == "write") write(r, count, out); else return 3;
  std::cout << count << " documents\n";
}
