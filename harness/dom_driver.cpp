// Drives the real DOM through its public API with generated operation
// sequences and records, after every call, the outcome and everything the API
// shows of the nodes that changed, plus the contents of every live NodeList.
//   dom_driver rand <profile> <seed> <traces> <ops> <out.ndjson>
//   dom_driver bfs  <maxstates> <out.ndjson>
#include "common.hpp"
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <SAX/InputSource.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <unistd.h>
using namespace vf;
typedef std::string S;
typedef Arabica::DOM::Node<S> Node;
typedef Arabica::DOM::Document<S> Doc;
typedef Arabica::DOM::Element<S> Elem;
typedef Arabica::DOM::Attr<S> AttrN;
typedef Arabica::DOM::NodeList<S> NList;
typedef Arabica::DOM::NamedNodeMap<S> NNM;
typedef Arabica::DOM::CharacterData<S> CData;
typedef Arabica::DOM::Text<S> TextN;
typedef Arabica::DOM::CDATASection<S> CDSec;
typedef Arabica::DOM::DOMImplementation<S> DImpl;
typedef Arabica::DOM::Node_impl<S, Arabica::default_string_adaptor<S> > Impl;
typedef Arabica::DOM::Node_base NB;

static const char* tyName(int t) {
  switch (t) {
    case NB::ELEMENT_NODE: return "elem"; case NB::ATTRIBUTE_NODE: return "attr"; case NB::TEXT_NODE: return "text";
    case NB::CDATA_SECTION_NODE: return "cdata"; case NB::ENTITY_REFERENCE_NODE: return "eref"; case NB::ENTITY_NODE: return "entity";
    case NB::PROCESSING_INSTRUCTION_NODE: return "pi"; case NB::COMMENT_NODE: return "comment"; case NB::DOCUMENT_NODE: return "doc";
    case NB::DOCUMENT_TYPE_NODE: return "dtype"; case NB::DOCUMENT_FRAGMENT_NODE: return "frag"; default: return "other";
  }
}
static const char* codeName(int c) {
  switch (c) {
    case 1: return "INDEX"; case 3: return "HIER"; case 4: return "WRONG"; case 5: return "INVCHAR"; case 7: return "NOMOD";
    case 8: return "NOTFOUND"; case 9: return "NOTSUP"; case 10: return "INUSE"; case 14: return "NS"; default: return "OTHER";
  }
}

struct ListH { NList list; int root; std::vector<S> s; };
static NList mkList(const Node& x, const std::vector<S>& s) {
  bool isdoc = x.getNodeType() == NB::DOCUMENT_NODE;
  if (s[0] == "kids") return x.getChildNodes();
  if (s[0] == "ns") return isdoc ? Doc(x).getElementsByTagNameNS(s[1], s[2]) : Elem(x).getElementsByTagNameNS(s[1], s[2]);
  return isdoc ? Doc(x).getElementsByTagName(s[2]) : Elem(x).getElementsByTagName(s[2]);
}

struct World {
  std::vector<Node> n;                 // n[0] unused
  std::vector<std::string> row;        // last logged row
  std::map<Impl*, int> ids;
  std::vector<ListH> lists;
  std::set<int> ro;                    // nodes known to be created read-only (below entity references)
  int docs[2];
  std::string dtd;
  FILE* out;
  long lines;
  World() : out(0), lines(0) { n.push_back(Node()); row.push_back(""); dtd = "[]"; docs[0] = docs[1] = 0; }

  int id(const Node& x) {
    if (x == 0) return 0;
    std::map<Impl*, int>::iterator i = ids.find(x.underlying_impl());
    return i == ids.end() ? -1 : i->second;
  }
  bool dead(int i) { return n[i] == 0; }
  int add(const Node& x) {
    int k = id(x);
    if (k > 0) return k;
    n.push_back(x); row.push_back("");
    ids[x.underlying_impl()] = (int)n.size() - 1;
    return (int)n.size() - 1;
  }
  int size() const { return (int)n.size() - 1; }

  static bool kidsOf(const Node& x, std::vector<Node>& v) {   // through the childNodes list
    int t = x.getNodeType();
    if (t == NB::TEXT_NODE || t == NB::CDATA_SECTION_NODE || t == NB::COMMENT_NODE || t == NB::PROCESSING_INSTRUCTION_NODE || t == NB::DOCUMENT_TYPE_NODE) return false;
    NList l = x.getChildNodes();
    unsigned int len = l.getLength();
    for (unsigned int i = 0; i < len; ++i) v.push_back(l.item(i));
    return true;
  }
  // register everything below x: attributes (as in the map), then children
  void discover(Node x) {
    add(x);
    if (x.getNodeType() == NB::ELEMENT_NODE) {
      NNM m = x.getAttributes();
      for (unsigned int i = 0; i < m.getLength(); ++i) discover(m.item(i));
    }
    std::vector<Node> k; kidsOf(x, k);
    for (size_t i = 0; i < k.size(); ++i) discover(k[i]);
  }
  // register a copy in the order of its source
  void discoverCopy(Node src, Node cp) {
    add(cp);
    if (src.getNodeType() == NB::ELEMENT_NODE && cp.getNodeType() == NB::ELEMENT_NODE) {
      NNM a = src.getAttributes(), b = cp.getAttributes();
      for (unsigned int i = 0; i < a.getLength(); ++i)
        if (AttrN(a.item(i)).getSpecified())
          for (unsigned int j = 0; j < b.getLength(); ++j)
            if (id(b.item(j)) < 0 && b.item(j).getNodeName() == a.item(i).getNodeName() && b.item(j).getNamespaceURI() == a.item(i).getNamespaceURI()) {
              discoverCopy(a.item(i), b.item(j)); break;
            }
      for (unsigned int j = 0; j < b.getLength(); ++j) discover(b.item(j));
    }
    if (src.getNodeType() == NB::ENTITY_REFERENCE_NODE) { discover(cp); markRo(cp); return; }
    std::vector<Node> k, s; kidsOf(cp, k); kidsOf(src, s);
    for (size_t i = 0; i < k.size(); ++i) if (i < s.size()) discoverCopy(s[i], k[i]); else discover(k[i]);
  }
  void markRo(Node x) { ro.insert(id(x)); std::vector<Node> k; kidsOf(x, k); for (size_t i = 0; i < k.size(); ++i) markRo(k[i]); }

  std::string mkrow(int i) {
    if (dead(i)) return "{\"ty\":\"dead\"}";
    const Node& x = n[i];
    int t = x.getNodeType();
    std::string r = "{\"ty\":\""; r += tyName(t); r += "\"";
    r += ",\"nm\":" + jstr(x.getNodeName());
    r += ",\"ns\":" + jstr(t == NB::DOCUMENT_NODE ? S() : x.getNamespaceURI());
    r += std::string(",\"hns\":") + (x.hasNamespaceURI() ? "true" : "false");
    r += ",\"pf\":" + jstr(x.getPrefix()) + ",\"ln\":" + jstr(x.getLocalName());
    r += ",\"val\":" + jstr(t == NB::DOCUMENT_TYPE_NODE ? S() : x.getNodeValue());
    r += ",\"par\":" + num(id(x.getParentNode()));
    std::vector<Node> k; kidsOf(x, k);
    std::vector<int> ki; for (size_t j = 0; j < k.size(); ++j) ki.push_back(id(k[j]));
    r += ",\"kids\":" + jints(ki);
    bool hc = x.hasChildNodes();
    r += ",\"first\":" + num(hc != !k.empty() ? -7 : id(x.getFirstChild())) + ",\"last\":" + num(id(x.getLastChild()));
    r += ",\"prev\":" + num(id(x.getPreviousSibling())) + ",\"next\":" + num(id(x.getNextSibling()));
    r += ",\"doc\":" + num(id(x.getOwnerDocument()));
    std::vector<int> at;
    if (t == NB::ELEMENT_NODE) { NNM m = x.getAttributes(); for (unsigned int j = 0; j < m.getLength(); ++j) at.push_back(id(m.item(j)));
      if (x.hasAttributes() != !at.empty()) at.push_back(-8);
      if (!(m.item(m.getLength()) == 0)) at.push_back(-9); }
    r += ",\"att\":" + jints(at);
    r += ",\"own\":" + num(t == NB::ATTRIBUTE_NODE ? id(AttrN(x).getOwnerElement()) : 0);
    r += std::string(",\"sp\":") + (t == NB::ATTRIBUTE_NODE && !AttrN(x).getSpecified() ? "false" : "true");
    r += ",\"de\":" + num(t == NB::DOCUMENT_NODE ? id(Doc(x).getDocumentElement()) : 0);
    r += ",\"dt\":" + num(t == NB::DOCUMENT_NODE ? id(Doc(x).getDoctype()) : 0) + "}";
    return r;
  }
  std::string delta() {
    std::string r = "[";
    for (int i = 1; i <= size(); ++i) {
      std::string w = mkrow(i);
      if (w != row[i]) { row[i] = w; if (r.size() > 1) r += ","; r += "[" + num(i) + "," + w + "]"; }
    }
    return r + "]";
  }
  int toggle;
  std::string showLists() {
    std::string r = "[";
    for (size_t i = 0; i < lists.size(); ++i) {
      if (i) r += ",";
      std::vector<int> v;
      if (lists[i].root) {
        // alternate the access order: item() before getLength() and the other way round
        if ((toggle++ & 1) == 0) {
          for (unsigned int j = 0; j < 200; ++j) { Node x = lists[i].list.item(j); if (x == 0) break; v.push_back(id(x)); }
          if (lists[i].list.getLength() != v.size()) v.push_back(-5);
        } else {
          unsigned int len = lists[i].list.getLength();
          for (unsigned int j = 0; j < len && j < 200; ++j) v.push_back(id(lists[i].list.item(j)));
          if (!(lists[i].list.item(len) == 0)) v.push_back(-6);
        }
      }
      r += jints(v);
    }
    return r + "]";
  }
  void init(int alternatives = -1) {
    for (size_t i = 0; i < row.size(); ++i) row[i] = "";
    std::vector<int> rov(ro.begin(), ro.end());
    fprintf(out, "{\"e\":\"init\",%s\"dtd\":%s,\"ro\":%s,\"d\":%s}\n", alternatives < 0 ? "" : ("\"n\":" + num(alternatives) + ",").c_str(), dtd.c_str(), jints(rov).c_str(), delta().c_str());
    ++lines; toggle = 0;
  }
  void emit(const char* e, const std::vector<int>& a, const std::vector<S>& s, const std::string& x, int r, const S& v) {
    fprintf(out, "{\"e\":\"%s\",\"a\":%s,\"s\":%s,\"x\":\"%s\",\"r\":%d,\"v\":%s,", e, jints(a).c_str(), jstrs(s).c_str(), x.c_str(), r, jstr(v).c_str());
    std::string d = delta();
    fprintf(out, "\"d\":%s,\"l\":%s}\n", d.c_str(), showLists().c_str());
    ++lines;
  }

  void subtree(const Node& x, std::vector<int>& v) {
    v.push_back(id(x));
    if (x.getNodeType() == NB::ELEMENT_NODE) { NNM m = x.getAttributes(); for (unsigned int i = 0; i < m.getLength(); ++i) subtree(m.item(i), v); }
    std::vector<Node> k; kidsOf(x, k); for (size_t i = 0; i < k.size(); ++i) subtree(k[i], v);
  }

  // perform one API call and log it
  void act(const std::string& e, std::vector<int> a, std::vector<S> s) {
    std::string x; int r = 0; S v; Node res; bool isnew = false, copy = false, retnode = true;
    // a marker of the call in progress, for crashes
    vf::inProgress("line " + num(lines + 1) + ": " + e + " " + jints(a) + " " + jstrs(s) + "\n");
    alarm(20);
    std::vector<int> dying; std::vector<Node> keep;
    try {
      if (e == "app") res = n[a[0]].appendChild(n[a[1]]);
      else if (e == "ins") res = n[a[0]].insertBefore(n[a[1]], a[2] ? n[a[2]] : Node());
      else if (e == "rep") res = n[a[0]].replaceChild(n[a[1]], n[a[2]]);
      else if (e == "rem") res = n[a[0]].removeChild(n[a[1]]);
      else if (e == "purge") {
        // a handle or list into the destroyed subtree must not outlive the call: they are given up before it
        // (and taken back should it be refused)
        Node arg = n[a[1]], parent = n[a[0]];
        if (!(arg.getParentNode() == 0) && arg.getParentNode() == parent) {
          subtree(arg, dying);
          std::vector<Impl*> raw;
          for (size_t i = 0; i < dying.size(); ++i) { raw.push_back(n[dying[i]].underlying_impl()); n[dying[i]] = Node(); }
          std::vector<size_t> given;
          for (size_t i = 0; i < lists.size(); ++i) if (lists[i].root && std::find(dying.begin(), dying.end(), lists[i].root) != dying.end()) { lists[i].list = NList(); given.push_back(i); }
          try {
            parent.purgeChild(arg);
            for (size_t i = 0; i < given.size(); ++i) lists[given[i]].root = 0;
            for (size_t i = 0; i < raw.size(); ++i) ids.erase(raw[i]);
          } catch (...) {
            for (size_t i = 0; i < dying.size(); ++i) n[dying[i]].set_underlying_impl(raw[i]);
            for (size_t i = 0; i < given.size(); ++i) lists[given[i]].list = mkList(n[lists[given[i]].root], lists[given[i]].s);
            throw;
          }
        } else parent.purgeChild(arg);
      }
      else if (e == "cel") { res = Doc(n[a[0]]).createElement(s[0]); isnew = true; }
      else if (e == "celns") { res = Doc(n[a[0]]).createElementNS(s[0], s[1]); isnew = true; }
      else if (e == "ctext") { res = Doc(n[a[0]]).createTextNode(s[0]); isnew = true; }
      else if (e == "ccdata") { res = Doc(n[a[0]]).createCDATASection(s[0]); isnew = true; }
      else if (e == "ccom") { res = Doc(n[a[0]]).createComment(s[0]); isnew = true; }
      else if (e == "cpi") { res = Doc(n[a[0]]).createProcessingInstruction(s[0], s[1]); isnew = true; }
      else if (e == "cfrag") { res = Doc(n[a[0]]).createDocumentFragment(); isnew = true; }
      else if (e == "cattr") { res = Doc(n[a[0]]).createAttribute(s[0]); isnew = true; }
      else if (e == "cattrns") { res = Doc(n[a[0]]).createAttributeNS(s[0], s[1]); isnew = true; }
      else if (e == "ceref") { res = Doc(n[a[0]]).createEntityReference(s[0]); discover(res); markRo(res); }
      else if (e == "cdtype") { res = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation().createDocumentType(s[0], "", ""); isnew = true; }
      else if (e == "clone") { res = n[a[0]].cloneNode(a[1] == 1); copy = true; discoverCopy(n[a[0]], res); }
      else if (e == "import") { res = Doc(n[a[0]]).importNode(n[a[1]], a[2] == 1); copy = true; discoverCopy(n[a[1]], res); }
      else if (e == "seta") { Elem(n[a[0]]).setAttribute(s[0], s[1]); }
      else if (e == "setans") { Elem(n[a[0]]).setAttributeNS(s[0], s[1], s[2]); }
      else if (e == "setan") res = Elem(n[a[0]]).setAttributeNode(AttrN(n[a[1]]));
      else if (e == "setanns") res = Elem(n[a[0]]).setAttributeNodeNS(AttrN(n[a[1]]));
      else if (e == "rema") Elem(n[a[0]]).removeAttribute(s[0]);
      else if (e == "remans") Elem(n[a[0]]).removeAttributeNS(s[0], s[1]);
      else if (e == "reman") res = Elem(n[a[0]]).removeAttributeNode(AttrN(n[a[1]]));
      else if (e == "nnmrem") { NNM m = n[a[0]].getAttributes(); res = m.removeNamedItem(s[0]); }
      else if (e == "nnmremns") { NNM m = n[a[0]].getAttributes(); res = m.removeNamedItemNS(s[0], s[1]); }
      else if (e == "setv") n[a[0]].setNodeValue(s[0]);
      else if (e == "setdata") CData(n[a[0]]).setData(s[0]);
      else if (e == "appdata") CData(n[a[0]]).appendData(s[0]);
      else if (e == "insdata") CData(n[a[0]]).insertData(a[1], s[0]);
      else if (e == "deldata") CData(n[a[0]]).deleteData(a[1], a[2]);
      else if (e == "repdata") CData(n[a[0]]).replaceData(a[1], a[2], s[0]);
      else if (e == "split") {
        if (n[a[0]].getNodeType() == NB::TEXT_NODE) res = TextN(n[a[0]]).splitText(a[1]);
        else res = CDSec(n[a[0]]).splitText(a[1]);
        isnew = true;
      }
      else if (e == "norm") n[a[0]].normalize();
      else if (e == "setpf") n[a[0]].setPrefix(s[0]);
      else if (e == "list") {
        ListH h; h.root = a[0]; h.s = s; h.list = mkList(n[a[0]], s);
        lists.push_back(h);
      }
      else if (e == "substr") v = CData(n[a[0]]).substringData(a[1], a[2]);
      else if (e == "geta") v = Elem(n[a[0]]).getAttribute(s[0]);
      else if (e == "getans") v = Elem(n[a[0]]).getAttributeNS(s[0], s[1]);
      else if (e == "hasa") v = Elem(n[a[0]]).hasAttribute(s[0]) ? "yes" : "no";
      else if (e == "hasans") v = Elem(n[a[0]]).hasAttributeNS(s[0], s[1]) ? "yes" : "no";
      else if (e == "getan") res = Elem(n[a[0]]).getAttributeNode(s[0]);
      else if (e == "getanns") res = Elem(n[a[0]]).getAttributeNodeNS(s[0], s[1]);
      else if (e == "byid") res = Doc(n[a[0]]).getElementById(s[0]);
      else abort();
    } catch (const Arabica::DOM::DOMException& ex) { x = codeName(ex.code()); }
    catch (const std::exception& ex) { x = std::string("CXX"); }
    alarm(0);
    if (x.empty()) {
      if (isnew && !(res == 0)) discover(res);
      // new attribute nodes and new text children appear below known nodes
      int upto = size();
      for (int i = 1; i <= upto; ++i) if (!dead(i)) {
        int t = n[i].getNodeType();
        if (t == NB::ELEMENT_NODE) { NNM m = n[i].getAttributes(); for (unsigned int j = 0; j < m.getLength(); ++j) discover(m.item(j)); }
        if (t != NB::DOCUMENT_TYPE_NODE) { std::vector<Node> k; kidsOf(n[i], k); for (size_t j = 0; j < k.size(); ++j) if (id(k[j]) < 0) discover(k[j]); }
      }
      r = id(res);
      if (res == 0) r = 0;
    }
    (void)copy; (void)retnode;
    res = Node(); keep.clear();
    emit(e.c_str(), a, s, x, r, v);
  }
};

static DImpl dimpl() { return Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation(); }

static Doc parseDoc(const std::string& xml) {
  Arabica::SAX2DOM::Parser<S> p;
  Arabica::SAX::CatchErrorHandler<S> eh;
  p.setErrorHandler(eh);
  std::stringstream ss(xml);
  Arabica::SAX::InputSource<S> is(ss);
  p.parse(is);
  return p.getDocument();
}

static const char* DTDDOC =
  "<!DOCTYPE r [<!ELEMENT r ANY><!ELEMENT a ANY><!ELEMENT b ANY>"
  "<!ATTLIST a d CDATA 'dv' id ID #IMPLIED f CDATA 'fv'><!ATTLIST b id ID #IMPLIED><!ENTITY e 'x<b/>y'><!ENTITY t 'plain'>]>"
  "<r><a id='i1'>t1</a><b id='i2'/></r>";
static const char* DTDJSON(int doc) {
  static std::string r;
  r = "[{\"doc\":" + num(doc) + ",\"defs\":[{\"el\":\"a\",\"at\":\"d\",\"v\":\"dv\"},{\"el\":\"a\",\"at\":\"f\",\"v\":\"fv\"}],\"ids\":[\"id\"],\"ents\":["
      "{\"nm\":\"e\",\"c\":[{\"ty\":\"text\",\"nm\":\"#text\",\"val\":\"x\",\"kids\":[]},{\"ty\":\"elem\",\"nm\":\"b\",\"val\":\"\",\"kids\":[]},"
      "{\"ty\":\"text\",\"nm\":\"#text\",\"val\":\"y\",\"kids\":[]}]},"
      "{\"nm\":\"t\",\"c\":[{\"ty\":\"text\",\"nm\":\"#text\",\"val\":\"plain\",\"kids\":[]}]}]}]";
  return r.c_str();
}

static const S NS1 = "u:1", NS2 = "u:2", XMLNS_URI = "http://www.w3.org/2000/xmlns/", XML_URI = "http://www.w3.org/XML/1998/namespace";

struct Gen {
  World& w; Rng& g; std::string prof; int cap;
  Gen(World& w_, Rng& g_, const std::string& p, int c) : w(w_), g(g_), prof(p), cap(c) {}
  template <class P> int pick(P pred) {
    std::vector<int> c; for (int i = 1; i <= w.size(); ++i) if (!w.dead(i) && pred(i)) c.push_back(i);
    return c.empty() ? 0 : c[g.below((int)c.size())];
  }
  int ty(int i) { return w.n[i].getNodeType(); }
  int any() { return pick([](int) { return true; }); }
  int anyDoc() { return pick([&](int i) { return ty(i) == NB::DOCUMENT_NODE; }); }
  int ofType(int t) { return pick([&](int i) { return ty(i) == t; }); }
  bool isChar(int i) { int t = ty(i); return t == NB::TEXT_NODE || t == NB::CDATA_SECTION_NODE || t == NB::COMMENT_NODE; }
  int container() { return pick([&](int i) { int t = ty(i); return t == NB::ELEMENT_NODE || t == NB::DOCUMENT_NODE || t == NB::DOCUMENT_FRAGMENT_NODE; }); }
  int withParent() { return pick([&](int i) { return !(w.n[i].getParentNode() == 0); }); }
  int kid(int p) { std::vector<Node> k; World::kidsOf(w.n[p], k); return k.empty() ? 0 : w.id(k[g.below((int)k.size())]); }
  S one(std::initializer_list<const char*> l) { int k = g.below((int)l.size()); return *(l.begin() + k); }
  S elName() { return g.chance(4) ? one({"", "x y", "<"}) : one({"a", "b", "c", "r"}); }
  S val() { return one({"", "v", "w", "hello", "i1", "i2", "abc def", "0123456789"}); }
  // attribute names are chosen so that a qualified name names one (namespace, local name)
  S atName() { return g.chance(4) ? one({"", "x y"}) : one({"d", "id", "k", "f"}); }
  void atNS(S& ns, S& qn) {
    switch (g.below(9)) {
      case 0: case 1: ns = NS1; qn = one({"p:a", "p:b"}); break;
      case 2: case 3: ns = NS2; qn = one({"q:a", "q:b", "p:a"}); break;
      case 4: ns = NS1; qn = "n"; break;
      case 5: ns = ""; qn = one({"z1", "z2"}); break;
      case 6: ns = g.chance(50) ? XMLNS_URI : S(""); qn = one({"xmlns", "xmlns:p"}); break;
      case 7: ns = g.chance(50) ? XML_URI : NS1; qn = "xml:lang"; break;
      default: ns = g.chance(50) ? S("") : NS2; qn = g.chance(50) ? "p:err" : "x y"; if (ns == NS2 && qn == "p:err") qn = "q:a"; break;
    }
  }
  void elNS(S& ns, S& qn) {
    switch (g.below(7)) {
      case 0: case 1: ns = NS1; qn = one({"p:a", "p:b", "a"}); break;
      case 2: case 3: ns = NS2; qn = one({"q:a", "p:a", "b"}); break;
      case 4: ns = ""; qn = one({"a", "b"}); break;
      case 5: ns = g.chance(50) ? XML_URI : NS1; qn = "xml:e"; break;
      default: ns = ""; qn = one({"p:a", "x y"}); break;
    }
  }
  void step() {
    bool room = w.size() < cap;
    int k = g.below(100);
    typedef std::vector<int> I; typedef std::vector<S> T;
    if (prof == "tree") {
      if (room && k < 22) return create();
      if (k < 40) { int p = g.chance(75) ? container() : any(), c = any(); return w.act("app", I{p, c}, T()); }
      if (k < 62) { int p = g.chance(85) ? container() : any(), c = any(); int r = kid(p); if (!r || g.chance(15)) r = g.chance(30) ? 0 : any(); return w.act("ins", I{p, c, r}, T()); }
      if (k < 78) { int p = g.chance(85) ? container() : any(), c = any(); int o = kid(p); if (!o || g.chance(15)) o = any(); return w.act("rep", I{p, c, o}, T()); }
      if (k < 88) { int o = g.chance(85) ? withParent() : any(); if (!o) o = any(); int p = g.chance(85) && !(w.n[o].getParentNode() == 0) ? w.id(w.n[o].getParentNode()) : any(); return w.act("rem", I{p, o}, T()); }
      if (k < 91) return purge();
      if (room && k < 94) return copy();
      if (room && k < 96) { int x = ofType(NB::TEXT_NODE); if (x) w.act("split", I{x, g.below((int)w.n[x].getNodeValue().size() + 2)}, T()); return; }
      if (k < 98) { int x = any(); return w.act("norm", I{x}, T()); }
      return setv(room);
    }
    if (prof == "attr") {
      int e = ofType(NB::ELEMENT_NODE);
      if (!e) return create();
      if (room && k < 12) return create();
      if (k < 22 && room) return w.act("seta", I{e}, T{atName(), val()});
      if (k < 34 && room) { S ns, qn; atNS(ns, qn); return w.act("setans", I{e}, T{ns, qn, val()}); }
      if (k < 52) {
        int a = ofType(NB::ATTRIBUTE_NODE); if (!a) return create();
        const char* op = (w.n[a].getLocalName().empty() && g.chance(80)) ? "setan" : "setanns";
        return w.act(op, I{e, a}, T());
      }
      if (k < 58) return w.act(g.chance(50) ? "rema" : "nnmrem", I{e}, T{g.chance(70) ? atName() : one({"p:a", "q:a", "n", "z1", "xmlns:p"})});
      if (k < 66) { S ns, qn; atNS(ns, qn); S ln = qn.find(':') == S::npos ? qn : qn.substr(qn.find(':') + 1);
        return w.act(g.chance(50) ? "remans" : "nnmremns", I{e}, T{ns, g.chance(15) ? atName() : ln}); }
      if (k < 72) { int a = ofType(NB::ATTRIBUTE_NODE); if (!a) return; if (g.chance(70) && !(AttrN(w.n[a]).getOwnerElement() == 0)) e = w.id(AttrN(w.n[a]).getOwnerElement()); return w.act("reman", I{e, a}, T()); }
      if (k < 80) { // attribute content through its children
        int a = ofType(NB::ATTRIBUTE_NODE); if (!a) return;
        if (g.chance(30) && room) return w.act("setv", I{a}, T{val()});
        int c = kid(a);
        if (c && g.chance(50) && isChar(c)) return w.act(g.chance(50) ? "setdata" : "appdata", I{c}, T{val()});
        if (c && g.chance(40)) return w.act("rem", I{a, c}, T());
        int t = pick([&](int i) { return ty(i) == NB::TEXT_NODE || ty(i) == NB::ENTITY_REFERENCE_NODE; });
        if (t) return w.act("ins", I{a, t, g.chance(50) ? c : 0}, T());
        return;
      }
      if (k < 84) return query(e);
      if (k < 88) return w.act("byid", I{anyDoc()}, T{one({"i1", "i2", "v", "w"})});
      if (room && k < 92) return copy();
      if (k < 95) { int p = container(), c = ofType(NB::ELEMENT_NODE); return w.act("app", I{p, c}, T()); }
      if (k < 96) return purge();
      if (k < 98) { int x = pick([&](int i) { return ty(i) == NB::ELEMENT_NODE && !w.ro.count(i); }); if (x) w.act("setpf", I{x}, T{one({"p", "q", "", "xml", "a:b", "xmlns"})}); return; }
      int x = pick([&](int i) { return ty(i) == NB::ATTRIBUTE_NODE && !(w.n[i].getLocalName().empty()); });
      if (x) { S ns = w.n[x].getNamespaceURI(); S p = ns == NS1 ? "p" : ns == NS2 ? "q" : "xml"; if (w.n[x].getPrefix().empty() && ns != S("")) p = "a:b"; w.act("setpf", I{x}, T{g.chance(75) ? p : S("a:b")}); }
      return;
    }
    if (prof == "list") {
      if ((int)w.lists.size() < 6 && k < 12) {
        int r = pick([&](int i) { int t = ty(i); return t == NB::ELEMENT_NODE || t == NB::DOCUMENT_NODE; });
        int kind = g.below(3);
        if (kind == 0) return w.act("list", I{r}, T{"kids", "", ""});
        if (kind == 1) return w.act("list", I{r}, T{"tag", "", one({"*", "a", "b", "p:a", "q:a", "c"})});
        return w.act("list", I{r}, T{"ns", one({"*", "u:1", "u:2"}), one({"*", "a", "b"})});
      }
      if (room && k < 30) { S ns, qn; if (g.chance(70)) { if (g.chance(50)) return w.act("cel", I{anyDoc()}, T{one({"a", "b", "c"})}); elNS(ns, qn); return w.act("celns", I{anyDoc()}, T{ns, qn}); } return create(); }
      if (k < 50) return w.act("app", I{container(), any()}, T());
      if (k < 64) { int p = container(), c = any(); return w.act("ins", I{p, c, kid(p)}, T()); }
      if (k < 72) { int p = container(), c = any(); int o = kid(p); if (o) return w.act("rep", I{p, c, o}, T()); return; }
      if (k < 86) { int o = withParent(); if (o) return w.act("rem", I{w.id(w.n[o].getParentNode()), o}, T()); return; }
      if (k < 89) return purge();
      if (room && k < 93) return copy();
      if (k < 95) { int x = ofType(NB::ELEMENT_NODE); if (x) return w.act("norm", I{x}, T()); return; }
      int x = ofType(NB::ELEMENT_NODE);
      if (x) w.act("norm", I{x}, T());
      return;
    }
    if (prof == "text") {
      int x = pick([&](int i) { return isChar(i); });
      if (!x) return create();
      int len = (int)w.n[x].getNodeValue().size();
      int o = g.below(len + 3) - 1, c = g.below(len + 4) - 1;
      if (room && k < 16) { int d = anyDoc(); return w.act(g.chance(75) ? "ctext" : g.chance(50) ? "ccdata" : "ccom", I{d}, T{val()}); }
      if (k < 22 && room) return create();
      if (k < 30) return w.act("substr", I{x, o, c}, T());
      if (k < 38) return w.act("insdata", I{x, o}, T{val()});
      if (k < 46) return w.act("deldata", I{x, o, c}, T());
      if (k < 54) return w.act("repdata", I{x, o, c}, T{val()});
      if (k < 58) return w.act(g.chance(50) ? "setdata" : "appdata", I{x}, T{val()});
      if (k < 68 && room) { int y = pick([&](int i) { return ty(i) == NB::TEXT_NODE || ty(i) == NB::CDATA_SECTION_NODE; }); if (!y) return; return w.act("split", I{y, g.below((int)w.n[y].getNodeValue().size() + 3) - 1}, T()); }
      if (k < 84) { int p = pick([&](int i) { int t = ty(i); return t == NB::ELEMENT_NODE || t == NB::DOCUMENT_FRAGMENT_NODE || t == NB::ATTRIBUTE_NODE; }); if (!p) return create();
        int ch = any(); int kk = kid(p); return w.act("ins", I{p, ch, g.chance(60) ? kk : 0}, T()); }
      if (k < 94) { int y = g.chance(80) ? pick([&](int i) { int t = ty(i); return t == NB::ELEMENT_NODE || t == NB::DOCUMENT_NODE; }) : any(); return w.act("norm", I{y}, T()); }
      return setv(room);
    }
    if (prof == "copy") {
      if (room && k < 25) return create();
      if (room && k < 60) return copy();
      if (room && k < 68) { int e = ofType(NB::ELEMENT_NODE); if (!e) return; if (g.chance(50)) return w.act("seta", I{e}, T{atName(), val()}); S ns, qn; atNS(ns, qn); return w.act("setans", I{e}, T{ns, qn, val()}); }
      if (k < 88) return w.act("app", I{container(), any()}, T());
      if (k < 92) { int o = withParent(); if (o) w.act("rem", I{w.id(w.n[o].getParentNode()), o}, T()); return; }
      return setv(room);
    }
  }
  void query(int e) {
    typedef std::vector<int> I; typedef std::vector<S> T;
    S nm = g.chance(60) ? atName() : one({"p:a", "q:b", "n", "xmlns", "xmlns:p", "xml:lang", "z1"});
    S ns, qn; atNS(ns, qn); S ln = qn.find(':') == S::npos ? qn : qn.substr(qn.find(':') + 1);
    switch (g.below(6)) {
      case 0: return w.act("geta", I{e}, T{nm}); case 1: return w.act("hasa", I{e}, T{nm}); case 2: return w.act("getan", I{e}, T{nm});
      case 3: return w.act("getans", I{e}, T{ns, ln}); case 4: return w.act("hasans", I{e}, T{ns, ln}); default: return w.act("getanns", I{e}, T{ns, ln});
    }
  }
  void setv(bool room) { int x = any(); if (ty(x) == NB::ATTRIBUTE_NODE && !room) return; w.act("setv", std::vector<int>{x}, std::vector<S>{val()}); }
  void purge() {
    int o = pick([&](int i) { return !(w.n[i].getParentNode() == 0); });
    if (!o) return;
    // destroying a node: nothing else of the trace may hold on to read-only content or the document type
    int p = w.id(w.n[o].getParentNode());
    w.act("purge", std::vector<int>{p, o}, std::vector<S>());
  }
  void copy() {
    typedef std::vector<int> I; typedef std::vector<S> T;
    int x = pick([&](int i) { int t = ty(i); return t != NB::DOCUMENT_TYPE_NODE && t != NB::DOCUMENT_NODE && t != NB::ENTITY_NODE; });
    if (!x) return;
    std::vector<int> sub; w.subtree(w.n[x], sub);
    if ((int)sub.size() > 12) return;
    if (g.chance(50)) return w.act("clone", I{x, g.below(2)}, T());
    return w.act("import", I{anyDoc(), x, g.below(2)}, T());
  }
  void create() {
    typedef std::vector<int> I; typedef std::vector<S> T;
    int d = anyDoc();
    S ns, qn;
    int k = g.below(prof == "attr" ? 16 : 13);
    if (prof == "copy" && k < 2) k = 13 + g.below(2);
    switch (k) {
      case 0: case 1: case 2: return w.act("cel", I{d}, T{elName()});
      case 3: case 4: elNS(ns, qn); return w.act("celns", I{d}, T{ns, qn});
      case 5: return w.act("ctext", I{d}, T{val()});
      case 6: return w.act("ccdata", I{d}, T{val()});
      case 7: return w.act("ccom", I{d}, T{val()});
      case 8: return w.act("cpi", I{d}, T{elName(), val()});
      case 9: case 10: return w.act("cfrag", I{d}, T());
      case 11: return w.act("ceref", I{d}, T{one({"e", "t", "none"})});
      case 12: if (prof == "tree") return w.act("cdtype", I{}, T{"r"}); return w.act("cfrag", I{d}, T());
      case 13: return w.act("cattr", I{d}, T{atName()});
      default: atNS(ns, qn); return w.act("cattrns", I{d}, T{ns, qn});
    }
  }
};

static int runRand(const std::string& prof, int seed, int traces, int ops, const char* path) {
  FILE* out = fopen(path, "w");
  for (int t = 0; t < traces; ++t) {
    Rng g(seed * 1000003ull + t * 7919ull + prof[0] * 131 + prof[1]);
    World w; w.out = out;
    int variant = g.below(3);
    Doc d1 = variant == 0 ? dimpl().createDocument("", "", 0) : parseDoc(DTDDOC);
    Doc d2 = dimpl().createDocument("", "r", 0);
    w.discover(d1); w.docs[0] = 1;
    w.docs[1] = w.add(d2); w.discover(d2);
    if (variant != 0) { w.dtd = DTDJSON(1); }
    d1 = Doc(); d2 = Doc();
    w.init();
    Gen gen(w, g, prof, 34);
    for (int i = 0; i < ops; ++i) gen.step();
  }
  fclose(out);
  return 0;
}

// bounded-exhaustive: every state reachable from a small stock of nodes, every operation in every state
struct Op { std::string e; std::vector<int> a; std::vector<S> s; };
static void stock(World& w, int variant) {
  Doc d = dimpl().createDocument("", "", 0), d2 = dimpl().createDocument("", "", 0);
  w.add(d);                                   // 1
  w.add(d.createElement("a"));                // 2
  w.add(d.createElement("b"));                // 3
  w.add(d.createTextNode("t"));               // 4
  if (variant == 0) w.add(d.createDocumentFragment());     // 5
  else if (variant == 1) { w.add(d.createComment("c")); }
  else if (variant == 2) w.add(d.createAttribute("k"));
  else w.add(d.createTextNode("u"));
  w.add(d2.createElement("o"));               // 6, other document
  w.add(d2);                                  // 7
}
static int runBfs(long maxstates, const char* path) {
  FILE* out = fopen(path, "w");
  FILE* null = fopen("/dev/null", "w");
  long total = 0, states = 0;
  for (int variant = 0; variant < 4; ++variant) {
    std::vector<Op> ops;
    int N = 5;
    for (int p = 1; p <= N; ++p) for (int c = 1; c <= 6; ++c) {
      if (c == 6 && p > 2) continue;
      ops.push_back(Op{"app", {p, c}, {}});
      for (int r = 1; r <= N; ++r) { if (c == 6 && r != 4) continue; ops.push_back(Op{"ins", {p, c, r}, {}}); ops.push_back(Op{"rep", {p, c, r}, {}}); }
      if (c <= N) ops.push_back(Op{"rem", {p, c}, {}});
    }
    if (variant == 2) for (int e = 2; e <= 3; ++e) { ops.push_back(Op{"setan", {e, 5}, {}}); ops.push_back(Op{"reman", {e, 5}, {}}); }
    std::set<std::string> seen;
    std::vector<std::vector<int> > queue;      // paths of op indices
    queue.push_back(std::vector<int>());
    { World w; w.out = null; stock(w, variant); w.init(); std::string k; for (int i = 1; i <= w.size(); ++i) k += w.row[i]; seen.insert(k); }
    for (size_t qi = 0; qi < queue.size() && states < maxstates; ++qi) {
      ++states;
      for (size_t oi = 0; oi < ops.size(); ++oi) {
        World w; w.out = null; stock(w, variant); w.init();
        std::vector<int> path = queue[qi];
        for (size_t j = 0; j < path.size(); ++j) w.act(ops[path[j]].e, ops[path[j]].a, ops[path[j]].s);
        w.out = oi ? null : out; w.init((int)ops.size()); w.out = out;
        w.act(ops[oi].e, ops[oi].a, ops[oi].s);
        total++;
        std::string k; for (int i = 1; i <= w.size(); ++i) k += w.row[i];
        if (seen.insert(k).second) { path.push_back((int)oi); queue.push_back(path); }
      }
    }
  }
  fclose(out); fclose(null);
  printf("states %ld transitions %ld\n", states, total);
  return 0;
}

int main(int argc, char** argv) {
  std::string mode = argv[1];
  if (mode == "rand") return runRand(argv[2], atoi(argv[3]), atoi(argv[4]), atoi(argv[5]), argv[6]);
  if (mode == "bfs") return runBfs(atoi(argv[2]), argv[3]);
  return 3;
}
