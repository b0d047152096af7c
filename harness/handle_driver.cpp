// Handles: random histories of getting, copying, moving and dropping handles to documents, nodes, lists, maps, walkers and
// node sets.  After every step it says which group (document, or document type of no document) every slot belongs to and
// which implementation objects have been freed (asked of the address sanitizer).
//   handle_driver SEED N LEN OUT
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/DocumentTraversalImpl.hpp>
#include <XPath/XPath.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <sanitizer/asan_interface.h>
#include <map>
#include <memory>
#include <typeinfo>
using namespace Arabica;
using vf::jstr; using vf::num;
typedef std::string S;
typedef DOM::Node<S> Node;
typedef DOM::Document<S> Document;
typedef DOM::DocumentType<S> DocType;
typedef DOM::Element<S> Element;
typedef DOM::Attr<S> Attr;
typedef DOM::NodeList<S> List;
typedef DOM::NamedNodeMap<S> Map;
typedef DOM::Traversal::TreeWalker<S> Walker;
typedef XPath::NodeSet<S> Set;
typedef XPath::XPathValue<S> Value;
typedef DOM::Node_base NB;

extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options() { return "quarantine_size_mb=512:detect_leaks=0"; }

enum Kind { NONE, NODE, LIST, MAP, WALKER, SET, VALUE };
struct Slot {
  Kind k; int g; int ob;
  Node node; List list; Map map; std::unique_ptr<Walker> walker; std::unique_ptr<Set> set; std::unique_ptr<Value> value;
  Slot() : k(NONE), g(0), ob(0) { }
};
static const int SLOTS = 6;

struct Peek : Walker { explicit Peek(const Walker& w) : Walker(w) { } const void* at() { return dynamic_cast<const void*>(this->impl()); } };

struct History {
  vf::Rng& g;
  DOM::DOMImplementation<S> impl;
  Slot s[SLOTS];
  std::map<const void*, int> group;                    // document (or unowned document type) implementation -> group
  std::vector<const void*> head;                       // group -> its implementation
  std::vector<int> merged;                             // group -> the group it went into, 0 if none
  std::map<const void*, int> tracked;                  // node implementation -> group
  std::map<const void*, int> objects; std::vector<const void*> object;
  std::string out;
  explicit History(vf::Rng& r) : g(r), impl(SimpleDOM::DOMImplementation<S>::getDOMImplementation()), head(1), merged(1), object(1) { }

  static bool gone(const void* p) { return __asan_address_is_poisoned(p) != 0; }
  std::map<int, DOM::Node_impl<S, default_string_adaptor<S> >*> types;             // document types that had no document when last looked at
  int groupOf(const void* p) {
    std::map<const void*, int>::iterator i = group.find(p);
    if (i != group.end()) return i->second;
    head.push_back(p); merged.push_back(0);
    return group[p] = int(head.size()) - 1;
  }
  int objectOf(const void* p) {
    std::map<const void*, int>::iterator i = objects.find(p);
    if (i != objects.end()) return i->second;
    object.push_back(p);
    return objects[p] = int(object.size()) - 1;
  }
  static const void* addr(Node n) { return dynamic_cast<const void*>(n.underlying_impl()); }
  int groupOfNode(Node n) {
    const void* a = addr(n);
    const void* h = a;
    if (n.getNodeType() != NB::DOCUMENT_NODE) {
      Document d = n.getOwnerDocument();
      if (d != 0) h = addr(d);
    }
    int gr = groupOf(h);
    std::map<const void*, int>::iterator t = tracked.find(a);
    if (t != tracked.end() && t->second != gr && head[t->second] == a) merged[t->second] = gr;
    tracked[a] = gr;
    if (h == a && n.getNodeType() == NB::DOCUMENT_TYPE_NODE) types[gr] = n.underlying_impl();
    return gr;
  }
  // use every slot, and note what it belongs to
  void look(int i) {
    Slot& x = s[i];
    x.ob = 0;
    while (merged[x.g]) x.g = merged[x.g];
    switch (x.k) {
      case NONE: x.g = 0; break;
      case NODE: {
        x.g = groupOfNode(x.node);
        S t = x.node.getNodeName() + x.node.getNodeValue();
        if (x.node.getNodeType() != NB::DOCUMENT_NODE) (void)(x.node.getParentNode() != 0);
        Node c = x.node.getFirstChild(); if (c != 0) t += c.getNodeName();
        break;
      }
      case LIST: for (unsigned n = 0; n < x.list.getLength(); ++n) groupOfNode(x.list.item(n)); break;
      case MAP:  for (unsigned n = 0; n < x.map.getLength(); ++n) groupOfNode(x.map.item(n)); break;
      case WALKER: { Node r = x.walker->getRoot(); x.g = groupOfNode(r); groupOfNode(x.walker->getCurrentNode());
        x.ob = objectOf(Peek(*x.walker).at()); break; }
      case SET: for (size_t n = 0; n < x.set->size(); ++n) groupOfNode((*x.set)[n]); break;
      case VALUE: { const Set& v = x.value->asNodeSet(); for (size_t n = 0; n < v.size(); ++n) groupOfNode(v[n]); break; }
    }
  }
  void clear(int i) {
    Slot& x = s[i];
    switch (x.k) {
      case NODE: x.node = 0; break;
      case LIST: x.list = List(); break;
      case MAP: x.map = Map(); break;
      case WALKER: x.walker.reset(); break;
      case SET: x.set.reset(); break;
      case VALUE: x.value.reset(); break;
      default: break;
    }
    x.k = NONE; x.g = 0; x.ob = 0;
  }
  // results: assigned over whatever the slot holds, as user code does
  void put(int d, const Node& n) {
    if (s[d].k != NODE) clear(d);
    s[d].node = n;
    s[d].k = n != 0 ? NODE : NONE;
  }
  void put(int d, const List& l, int gr) { if (s[d].k != LIST) clear(d); s[d].list = l; s[d].k = LIST; s[d].g = gr; }
  void put(int d, const Map& m, int gr) { if (s[d].k != MAP) clear(d); s[d].map = m; s[d].k = MAP; s[d].g = gr; }

  int pick(Kind k) { int c[SLOTS], n = 0; for (int i = 0; i < SLOTS; ++i) if (s[i].k == k) c[n++] = i; return n ? c[g.below(n)] : -1; }
  int docs() const { int n = 0; bool seen[1000] = {false}; for (int i = 0; i < SLOTS; ++i) if (s[i].g > 0 && s[i].g < 1000 && !seen[s[i].g]) { seen[s[i].g] = true; ++n; } return n; }
  // mostly of the same group as slot r
  int pickNode(int type) {
    if (r >= 0 && g.chance(70)) { int c[SLOTS], n = 0; for (int i = 0; i < SLOTS; ++i) if (s[i].k == NODE && s[i].g == s[r].g && i != r && (type == 0 || s[i].node.getNodeType() == type)) c[n++] = i; if (n) return c[g.below(n)]; }
    return pickAny(type);
  }
  int pickAny(int type) { int c[SLOTS], n = 0; for (int i = 0; i < SLOTS; ++i) if (s[i].k == NODE && (type == 0 || s[i].node.getNodeType() == type)) c[n++] = i; return n ? c[g.below(n)] : -1; }

  static Document parse(bool dtd, bool drop) {
    SAX2DOM::Parser<S> p;
    SAX::CatchErrorHandler<S> eh; p.setErrorHandler(eh);
    SAX::InputSource<S> is;
    std::stringstream ss;
    if (dtd) ss << "<!DOCTYPE a [<!ELEMENT a ANY><!ATTLIST a d CDATA 'v' id ID #IMPLIED><!ENTITY e 'x<b/>y'><!NOTATION n SYSTEM 'u'>]>";
    ss << "<a id='i'>t<b x='1'><c/></b>&" << (dtd ? "e" : "amp") << ";<?p q?><!--c--><![CDATA[z]]></a>";
    is.setByteStream(ss);
    p.parse(is);
    Document d = p.getDocument();
    if (drop) p.reset();
    return d;
  }

  std::string op; int r, a, b, d; S res;
  // an entity or notation of a document type in some slot (or its document): wanted, if there is one
  Node declared() {
    for (int i = 0, at = g.below(SLOTS); i < SLOTS; ++i, at = (at + 1) % SLOTS) {
      if (s[at].k != NODE) continue;
      Node n = s[at].node;
      Document o = n.getNodeType() == NB::DOCUMENT_NODE ? (Document)n : n.getOwnerDocument();
      DocType t = n.getNodeType() == NB::DOCUMENT_TYPE_NODE ? (DocType)n : o != 0 ? o.getDoctype() : DocType();
      if (t == 0) continue;
      Map m = g.chance(70) ? t.getEntities() : t.getNotations();
      if (m.getLength() == 0) continue;
      r = at;
      return m.item(0);
    }
    return Node();
  }
  void doc() {
    Document D = (Document)s[r].node;
    if (g.chance(10)) { int was = r; Node n = declared(); r = was; if (n != 0) { op = "importNode"; put(d, D.importNode(n, g.chance(70))); return; } }
    switch (g.below(14)) {
      case 0: op = "createElement"; put(d, D.createElement("e")); break;
      case 1: op = "createElementNS"; put(d, D.createElementNS("u", "p:e")); break;
      case 2: op = "createTextNode"; put(d, D.createTextNode("text")); break;
      case 3: op = "createComment"; put(d, D.createComment("com")); break;
      case 4: op = "createFragment"; put(d, D.createDocumentFragment()); break;
      case 5: op = "createAttribute"; put(d, D.createAttribute("x")); break;
      case 6: op = "createPI"; put(d, D.createProcessingInstruction("p", "q")); break;
      case 7: op = "createReference"; put(d, D.createEntityReference("e")); break;
      case 8: op = "createCDATA"; put(d, D.createCDATASection("cd")); break;
      case 9: op = "createElement"; put(d, D.createElement("1 bad")); break;
      case 10: op = "importNode"; a = pickNode(0); b = 0; if (a >= 0) put(d, D.importNode(s[a].node, g.chance(70))); else op = ""; break;
      case 11: op = "documentElement"; put(d, D.getDocumentElement()); break;
      case 12: op = "doctype"; put(d, D.getDoctype()); break;
      case 13: op = "elementById"; put(d, D.getElementById("i")); break;
    }
  }
  void node() {
    Node& n = s[r].node;
    int type = n.getNodeType();
    if (type == NB::DOCUMENT_NODE && g.chance(50)) return doc();
    if (type == NB::ELEMENT_NODE && g.chance(35)) {
      Element e = (Element)n;
      a = pickNode(NB::ATTRIBUTE_NODE);
      switch (g.below(9)) {
        case 0: op = "setAttribute"; e.setAttribute(g.chance(50) ? "x" : "d", "v"); break;
        case 1: op = "removeAttribute"; e.removeAttribute(g.chance(50) ? "x" : "d"); break;
        case 2: op = "getAttributeNode"; put(d, e.getAttributeNode(g.chance(50) ? "x" : "d")); break;
        case 3: case 4: op = "setAttributeNode"; if (a >= 0) put(d, e.setAttributeNode((Attr)s[a].node)); else op = ""; break;
        case 5: op = "removeAttributeNode"; if (a >= 0) put(d, e.removeAttributeNode((Attr)s[a].node)); else op = ""; break;
        case 6: op = "setAttributeNodeNS"; if (a >= 0) put(d, e.setAttributeNodeNS((Attr)s[a].node)); else op = ""; break;
        case 7: op = "setAttributeNS"; e.setAttributeNS("u", "p:x", "v"); break;
        case 8: op = "elementsByName"; put(d, g.chance(50) ? e.getElementsByTagName("*") : e.getElementsByTagNameNS("*", "*"), s[r].g); break;
      }
      return;
    }
    if (type == NB::DOCUMENT_TYPE_NODE && g.chance(40)) {
      DocType t = (DocType)n;
      switch (g.below(2)) {
        case 0: op = "entities"; put(d, t.getEntities(), s[r].g); break;
        case 1: op = "notations"; put(d, t.getNotations(), s[r].g); break;
      }
      return;
    }
    a = pickNode(0);
    switch (g.below(20)) {
      case 0: case 1: case 2: op = "appendChild"; put(d, n.appendChild(s[a].node)); break;
      case 3: op = "insertBefore"; b = pickNode(0); put(d, g.chance(60) && n.getFirstChild() != 0 ? n.insertBefore(s[a].node, n.getFirstChild()) : n.insertBefore(s[b].node, s[a].node)); break;
      case 4: op = "replaceChild"; b = pickNode(0); put(d, g.chance(70) && n.getFirstChild() != 0 ? n.replaceChild(s[a].node, n.getFirstChild()) : n.replaceChild(s[a].node, s[b].node)); break;
      case 5: op = "removeChild"; put(d, g.chance(70) && n.getFirstChild() != 0 ? n.removeChild(n.getLastChild()) : n.removeChild(s[a].node)); break;
      case 6: op = "firstChild"; put(d, n.getFirstChild()); break;
      case 7: op = "lastChild"; put(d, n.getLastChild()); break;
      case 8: op = "nextSibling"; put(d, n.getNextSibling()); break;
      case 9: op = "parentNode"; put(d, n.getParentNode()); break;
      case 10: op = "ownerDocument"; put(d, n.getOwnerDocument()); break;
      case 11: op = "childNodes"; { List l = n.getChildNodes(); if (l != 0) put(d, l, s[r].g); else op = ""; } break;
      case 12: op = "attributes"; { Map m = n.getAttributes(); if (m != 0) put(d, m, s[r].g); else op = ""; } break;
      case 13: case 14: op = type == NB::DOCUMENT_NODE ? "cloneDocument" : type == NB::DOCUMENT_TYPE_NODE ? "cloneDoctype" : "cloneNode"; put(d, n.cloneNode(g.chance(70))); break;
      case 15: op = "normalize"; if (type == NB::ELEMENT_NODE) n.normalize(); else op = ""; break;
      case 16: if (type == NB::TEXT_NODE) { op = "splitText"; put(d, ((DOM::Text<S>)n).splitText(g.below(3))); }
               else if (type == NB::ATTRIBUTE_NODE) { op = "setValue"; ((Attr)n).setValue("new"); }
               else if (type == NB::DOCUMENT_NODE) { op = "elementsByName"; put(d, ((Document)n).getElementsByTagName("*"), s[r].g); }
               break;
      case 17: op = "walker"; if (type != NB::DOCUMENT_TYPE_NODE || n.getOwnerDocument() != 0) {
                 Document D = type == NB::DOCUMENT_NODE ? (Document)n : n.getOwnerDocument();
                 DOM::Traversal::DocumentTraversal<S> t = D.createDocumentTraversal();
                 std::unique_ptr<Walker> w(new Walker(t.createTreeWalker(n, 0xFFFFFFFF, true)));
                 clear(d); s[d].walker.swap(w); s[d].k = WALKER; } else op = "";
               break;
      case 18: case 19: if (type != NB::DOCUMENT_TYPE_NODE && type != NB::DOCUMENT_FRAGMENT_NODE) {
                 { bool odd = false; for (Node p = n; p != 0; p = p.getNodeType() == NB::DOCUMENT_NODE ? Node() : p.getParentNode()) odd = odd || p.getNodeType() == NB::ATTRIBUTE_NODE || (p.getNodeType() >= NB::ENTITY_REFERENCE_NODE && p.getNodeType() <= NB::ENTITY_NODE); if (odd) break; }
                 op = "select"; static XPath::XPath<S> xp;
                 Value v = xp.compile_expr(g.chance(50) ? "//node()|//@*" : "ancestor-or-self::node()").evaluate(n);
                 if (v.asNodeSet().empty()) { op = ""; break; }
                 int gr = s[r].g; clear(d); s[d].g = gr;
                 if (g.chance(50)) { s[d].set.reset(new Set(v.asNodeSet())); s[d].k = SET; } else { s[d].value.reset(new Value(v)); s[d].k = VALUE; } }
               break;
    }
  }
  bool step() {
    op = ""; res = "ok"; r = a = b = -1; d = g.below(SLOTS);
    for (int i = 0; i < 4 && s[d].k != NONE && (i < 2 || s[d].k == NODE); ++i) d = g.below(SLOTS);   // rather a free slot
    int was[SLOTS + 1] = {0}; for (int i = 0; i < SLOTS; ++i) was[i + 1] = s[i].g;
    try {
      int c = g.below(100);
      if (c < (docs() < 1 ? 30 : docs() < 2 ? 5 : 1)) { op = "createDocument"; put(d, impl.createDocument("", g.chance(70) ? "a" : "", DocType())); }
      else if (c < 16 && g.chance(docs() < 2 ? 30 : 10)) { op = "createDoctype"; put(d, impl.createDocumentType("a", "", "")); }
      else if (c < 17) { r = pickNode(NB::DOCUMENT_TYPE_NODE); if (r >= 0) { op = "createDocumentWith"; bool bad = g.chance(25); put(d, impl.createDocument("", bad ? "no good" : "a", (DocType)s[r].node)); } }
      else if (c < 18) { if (g.chance(25)) { op = "createDocument"; put(d, impl.createDocument("", "no good", DocType())); } }
      else if (c < 22 && g.chance(docs() < 2 ? 60 : 20)) { op = "parse"; put(d, parse(g.chance(60), g.chance(50))); }
      else if (c < 28) { op = "drop"; clear(d); }
      else if (c < 33) { r = g.below(SLOTS); copy(); }
      else if (c < 35) { r = pick(NODE); if (r >= 0) { op = "copy"; d = r; s[d].node = s[r].node; } }
      else if (c < 43) item();
      else if (c < 45) { Node n = declared(); if (n != 0) { op = "item"; if (g.chance(50)) put(d, n); else put(d, n.cloneNode(true)); } }
      else { r = pickNode(0); if (r >= 0) node(); }
    } catch (DOM::DOMException& e) { res = "err"; }
    if (op.empty()) return false;
    int touched[3] = {was[0], a >= 0 ? was[1 + a] : 0, b >= 0 ? was[1 + b] : 0};
    if (r >= 0) touched[0] = was[1 + r];
    for (int i = 0; i < 3; ++i)
      if (types.count(touched[i]) && !merged[touched[i]] && !gone(head[touched[i]])) { Node t(types[touched[i]]); groupOfNode(t); }
    for (int i = 0; i < SLOTS; ++i) look(i);
    log();
    return true;
  }
  void copy() {
    Slot& x = s[r]; Slot& y = s[d];
    if (x.k == NONE || r == d) return;
    op = "copy";
    int gr = x.g;
    switch (x.k) {
      case NODE: put(d, x.node); break;
      case LIST: put(d, List(x.list), gr); break;
      case MAP: put(d, Map(x.map), gr); break;
      case WALKER: { std::unique_ptr<Walker> w(new Walker(*x.walker)); clear(d); y.walker.swap(w); y.k = WALKER; break; }
      case SET: { std::unique_ptr<Set> w(new Set(*x.set)); clear(d); y.set.swap(w); y.k = SET; y.g = gr; break; }
      case VALUE: { std::unique_ptr<Value> w(new Value(*x.value)); clear(d); y.value.swap(w); y.k = VALUE; y.g = gr; break; }
      default: break;
    }
  }
  void item() {
    r = g.below(SLOTS);
    Slot& x = s[r];
    switch (x.k) {
      case LIST: op = "item"; put(d, Node(x.list.item(g.below(x.list.getLength() + 1)))); break;
      case MAP: if (g.chance(70)) { op = "item"; put(d, Node(x.map.item(g.below(x.map.getLength() + 1)))); }
                else if (g.chance(50)) { op = "removeNamed"; put(d, x.map.removeNamedItem("x")); }
                else { a = pickNode(NB::ATTRIBUTE_NODE); if (a >= 0) { op = "setNamed"; put(d, x.map.setNamedItem(s[a].node)); } }
                break;
      case WALKER: op = "walk"; switch (g.below(5)) {
                  case 0: put(d, Node(x.walker->getRoot())); break;
                  case 1: put(d, Node(x.walker->getCurrentNode())); break;
                  case 2: put(d, Node(x.walker->nextNode())); break;
                  case 3: put(d, Node(x.walker->parentNode())); break;
                  case 4: a = pickNode(0); if (a >= 0 && s[a].g == x.g) { Node n = s[a].node; x.walker->setCurrentNode(n); op = "walkTo"; } else op = ""; break;
                } break;
      case SET: op = "item"; put(d, Node((*x.set)[g.below(int(x.set->size()))])); break;
      case VALUE: op = "item"; put(d, Node(x.value->asNodeSet()[0])); break;
      default: break;
    }
  }
  void log() {
    std::string l = std::string("{\"op\":\"") + op + "\",\"r\":" + num(r + 1) + ",\"a\":" + num(a + 1) + ",\"b\":" + num(b + 1) + ",\"d\":" + num(d + 1) + ",\"res\":\"" + res + "\",\"sl\":[";
    for (int i = 0; i < SLOTS; ++i) l += (i ? ",[" : "[") + num(s[i].g) + "," + num(s[i].ob) + "]";
    l += "],\"gr\":[";
    std::vector<int> n(head.size()), up(head.size());
    for (std::map<const void*, int>::iterator i = tracked.begin(); i != tracked.end(); ++i) { int t = i->second; ++n[t]; if (!gone(i->first)) ++up[t]; }
    for (size_t i = 1; i < head.size(); ++i) l += (i > 1 ? ",[" : "[") + num(merged[i]) + "," + num(gone(head[i]) ? 0 : 1) + "," + num(n[i]) + "," + num(up[i]) + "]";
    l += "],\"ob\":[";
    for (size_t i = 1; i < object.size(); ++i) l += (i > 1 ? "," : "") + num(gone(object[i]) ? 0 : 1);
    out += (out.empty() ? "" : ",") + l + "]}";
  }
  void end() {
    // the rest goes in any order
    int o[SLOTS]; for (int i = 0; i < SLOTS; ++i) o[i] = i;
    for (int i = SLOTS - 1; i > 0; --i) std::swap(o[i], o[g.below(i + 1)]);
    for (int i = 0; i < SLOTS; ++i) if (s[o[i]].k != NONE) { op = "drop"; res = "ok"; r = a = b = -1; d = o[i]; clear(d); for (int k = 0; k < SLOTS; ++k) look(k); log(); }
  }
};

int main(int argc, char** argv) {
  if (argc != 5) return 3;
  unsigned seed = unsigned(atoi(argv[1])); int n = atoi(argv[2]), len = atoi(argv[3]);
  std::ofstream out(argv[4]);
  for (int h = -30; h < n; ++h) {
    std::string lines;
    vf::Rng g(seed * 100003u + unsigned(h + 37));
    vf::inProgress("handle history " + num(h) + " seed " + num(seed));
    size_t before = __sanitizer_get_current_allocated_bytes();
    {
      History x(g);
      for (int i = 0; i < len; ++i) x.step();
      x.end();
      lines.swap(x.out);
    }
    lines.shrink_to_fit();
    size_t mine = lines.capacity() > 15 ? lines.capacity() + 1 : 0;
    long leak = long(__sanitizer_get_current_allocated_bytes()) - long(before) - long(mine);
    if (h >= 0) out << "{\"ev\":[" << lines << "],\"leak\":" << leak << "}\n";
  }
  return 0;
}
