#ifndef VF_DOM_GEN_HPP
#define VF_DOM_GEN_HPP
// Random documents for the XPath and XSLT drivers, and their description for the specification.
#include "common.hpp"
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <SAX/InputSource.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
#include <map>
namespace vf {
typedef std::string S;
typedef Arabica::DOM::Node<S> Node;
typedef Arabica::DOM::Document<S> Doc;
typedef Arabica::DOM::Element<S> Elem;
typedef Arabica::DOM::Attr<S> Attr;
typedef Arabica::DOM::Node_base NB;
static const S XMLNSNS = "http://www.w3.org/2000/xmlns/";
inline Doc parseDoc(const S& xml) {
  Arabica::SAX2DOM::Parser<S> p;
  Arabica::SAX::CatchErrorHandler<S> eh;
  p.setErrorHandler(eh);
  std::istringstream in(xml);
  Arabica::SAX::InputSource<S> is(in);
  p.parse(is);
  if (eh.errorsReported()) throw std::runtime_error("cannot parse " + xml + ": " + eh.errors());
  return p.getDocument();
}
inline Doc newDoc() { return Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation().createDocument("", "", Arabica::DOM::DocumentType<S>()); }
struct DomGen {
  Rng& r;
  std::vector<S> names, texts, targets, avals;
  std::vector<std::pair<S, S> > prefixes;
  int budget;
  bool decls, runs;
  explicit DomGen(Rng& rr) : r(rr), budget(10), decls(true), runs(true) {}
  template <class T> const T& pick(const std::vector<T>& v) { return v[r.below((int)v.size())]; }
  Elem element(Doc& d) {
    Elem e;
    if (r.chance(25)) { auto p = pick(prefixes); e = d.createElementNS(p.second, r.chance(80) ? p.first + ":" + pick(names) : pick(names)); }
    else if (r.chance(80)) e = d.createElementNS("", pick(names));
    else e = d.createElement(pick(names));
    int na = r.chance(45) ? 0 : 1 + r.below(3);
    for (int i = 0; i < na; ++i) {
      if (r.chance(25)) { auto p = pick(prefixes); e.setAttributeNS(p.second, p.first + ":" + pick(names), pick(avals)); }
      else if (r.chance(60)) e.setAttribute(pick(names), pick(avals));
      else e.setAttributeNS("", pick(names), pick(avals));
    }
    if (decls && r.chance(35)) {
      int nd = 1 + r.below(2);
      for (int i = 0; i < nd; ++i) {
        if (r.chance(60)) { auto p = pick(prefixes); e.setAttributeNS(XMLNSNS, "xmlns:" + p.first, r.chance(70) ? p.second : S("other")); }
        else e.setAttributeNS(XMLNSNS, "xmlns", r.chance(30) ? S() : pick(prefixes).second);
      }
    }
    return e;
  }
  void fill(Doc& d, Node at, int depth) {
    int nc = r.below(depth > 3 ? 2 : 5);
    for (int i = 0; i < nc && budget > 0; ++i) {
      --budget;
      int k = r.below(100);
      if (k < 45) { Elem e = element(d); at.appendChild(e); fill(d, e, depth + 1); }
      else if (k < 70) {
        int c = runs && r.chance(30) ? 2 + r.below(2) : 1;
        for (int j = 0; j < c; ++j) { if (r.chance(75)) at.appendChild(d.createTextNode(pick(texts))); else at.appendChild(d.createCDATASection(pick(texts))); }
      }
      else if (k < 85) at.appendChild(d.createComment(pick(texts)));
      else at.appendChild(d.createProcessingInstruction(pick(targets), pick(texts)));
    }
  }
  Doc document(bool doctype) {
    Doc d = doctype ? parseDoc("<!DOCTYPE a><a/>") : newDoc();
    if (doctype) d.removeChild(d.getDocumentElement());
    if (r.chance(25)) d.appendChild(r.chance(50) ? Node(d.createComment(pick(texts))) : Node(d.createProcessingInstruction(pick(targets), pick(texts))));
    Elem e = element(d);
    d.appendChild(e);
    if (r.chance(25)) d.appendChild(r.chance(50) ? Node(d.createComment(pick(texts))) : Node(d.createProcessingInstruction(pick(targets), pick(texts))));
    fill(d, e, 0);
    return d;
  }
};
// the raw nodes of a tree, numbered from 1, as the specification sees them
struct Raw {
  std::vector<Node> n;
  std::map<const void*, int> id;
  std::vector<S> rec;
  int add(const Node& x, int par) {
    n.push_back(x); rec.push_back("");
    int me = (int)n.size();
    id[x.underlying_impl()] = me;
    std::vector<int> ks, as;
    S t, ns, ln;
    switch (x.getNodeType()) {
      case NB::DOCUMENT_NODE: t = "doc"; break;
      case NB::DOCUMENT_FRAGMENT_NODE: t = "frag"; break;
      case NB::ELEMENT_NODE: t = "elem"; break;
      case NB::ATTRIBUTE_NODE: t = "attr"; break;
      case NB::TEXT_NODE: t = "text"; break;
      case NB::CDATA_SECTION_NODE: t = "cdata"; break;
      case NB::COMMENT_NODE: t = "comment"; break;
      case NB::PROCESSING_INSTRUCTION_NODE: t = "pi"; break;
      case NB::DOCUMENT_TYPE_NODE: t = "doctype"; break;
      default: t = "other";
    }
    S nm = x.getNodeName();
    if (t == "elem" || t == "attr") { ns = x.getNamespaceURI(); ln = x.getLocalName(); if (ln == "") ln = nm; }
    else if (t == "pi") ln = nm;
    else nm = "";
    if (t == "elem") for (unsigned i = 0; i < x.getAttributes().getLength(); ++i) as.push_back(add(x.getAttributes().item(i), me));
    if (t != "attr") for (Node c = x.getFirstChild(); c != 0; c = c.getNextSibling()) ks.push_back(add(c, me));
    S v = t == "elem" || t == "doc" || t == "frag" || t == "doctype" ? S() : x.getNodeValue();
    rec[me - 1] = "{\"t\":" + jstr(t) + ",\"nm\":" + jstr(nm) + ",\"ns\":" + jstr(ns) + ",\"ln\":" + jstr(ln) + ",\"v\":" + jstr(v) +
                  ",\"par\":" + num(par) + ",\"k\":" + jints(ks) + ",\"a\":" + jints(as) + "}";
    return me;
  }
  explicit Raw(const Node& root) { add(root, 0); }
  S json() const { S o = "["; for (size_t i = 0; i < rec.size(); ++i) { if (i) o += ","; o += rec[i]; } return o + "]"; }
  static bool isNs(const Node& x) { return x.getNodeType() > NB::MAX_TYPE; }
  S key(const Node& x) const {
    if (x == 0) return "[0]";
    if (isNs(x)) { auto i = id.find(x.getParentNode().underlying_impl()); return "[" + num(i == id.end() ? -1 : i->second) + "," + jstr(x.getNodeName()) + "]"; }
    auto i = id.find(x.underlying_impl());
    return "[" + num(i == id.end() ? -1 : i->second) + "]";
  }
};
}
#endif
