// Drives TreeWalker over exhaustively enumerated small trees and random larger ones.
//   walker_driver all <maxnodes> <out>      every tree x labelling x current node x move
//   walker_driver rand <seed> <n> <out>     random kinds, masks, filters, entity references, tree changes
#include "common.hpp"
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <SAX/InputSource.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <map>
using namespace vf;
typedef std::string S;
typedef Arabica::DOM::Node<S> Node;
typedef Arabica::DOM::Document<S> Doc;
typedef Arabica::DOM::Element<S> Elem;
typedef Arabica::DOM::Node_base NB;
typedef Arabica::DOM::Traversal::NodeFilter<S> Filter;
typedef Arabica::DOM::Traversal::TreeWalker<S> Walker;

struct Tree {
  std::vector<Node> n;           // 1-based, document order
  std::vector<int> par, kind, lab;
  int root;
  Tree() : n(1), root(1) {}
  void collect(const Node& x, int p, Rng* r) {
    n.push_back(x); par.push_back(p); kind.push_back(x.getNodeType());
    lab.push_back(r ? (r->chance(50) ? 1 : r->chance(50) ? 2 : 3) : 1);
    int me = (int)n.size() - 1;
    for (Node c = x.getFirstChild(); c != 0; c = c.getNextSibling()) collect(c, me, r);
  }
  int id(const Node& x) const {
    if (x == 0) return 0;
    for (size_t i = 1; i < n.size(); ++i) if (n[i] == x) return (int)i;
    return -1;
  }
};
struct LabelFilter : public Filter {
  const Tree* t;
  Result acceptNode(const Node& x) const {
    int i = t->id(x);
    return i <= 0 ? FILTER_ACCEPT : (Result)t->lab[i - 1];
  }
};
static const char* OPS[] = {"parentNode", "firstChild", "lastChild", "previousSibling", "nextSibling", "previousNode", "nextNode"};
static Node apply(Walker& w, int op) {
  switch (op) {
    case 0: return w.parentNode(); case 1: return w.firstChild(); case 2: return w.lastChild();
    case 3: return w.previousSibling(); case 4: return w.nextSibling(); case 5: return w.previousNode(); default: return w.nextNode();
  }
}
struct Line {
  std::vector<S> ops; std::vector<int> res, cur;
  void write(std::ostream& o, const Tree& t, const std::vector<int>& show, bool expand, int par_offset = 0) {
    o << "{\"par\":" << jints(t.par) << ",\"kind\":" << jints(t.kind) << ",\"lab\":" << jints(t.lab) << ",\"root\":" << t.root
      << ",\"show\":" << jints(show) << ",\"expand\":" << (expand ? "true" : "false") << ",\"ops\":" << jstrs(ops)
      << ",\"res\":" << jints(res) << ",\"cur\":" << jints(cur) << "}\n";
  }
};
static void mark(const Tree& t, const Line& l, const char* op) {
  std::ostringstream o;
  o << "tree parents " << jints(t.par) << " labels " << jints(t.lab) << " root " << t.root << " after " << jstrs(l.ops) << " calling " << op;
  inProgress(o.str());
}
static void doMove(Walker& w, const Tree& t, Line& l, int op) {
  mark(t, l, OPS[op]);
  Node r = apply(w, op);
  l.ops.push_back(OPS[op]); l.res.push_back(t.id(r)); l.cur.push_back(t.id(w.getCurrentNode()));
}
static void doSet(Walker& w, const Tree& t, Line& l, int c) {
  w.setCurrentNode(t.n[c]);
  l.ops.push_back("set"); l.res.push_back(t.id(w.getCurrentNode()) == c ? c : -1); l.cur.push_back(t.id(w.getCurrentNode()));
}
static Arabica::DOM::DOMImplementation<S> dimpl() { return Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation(); }

static void all(int maxn, std::ostream& o) {
  std::vector<int> show; for (int i = 1; i <= 12; ++i) show.push_back(i);
  for (int k = 1; k <= maxn; ++k) {
    std::vector<int> p(k, 0);
    // enumerate preorder parent vectors: p[i] is i-1 or an ancestor of i-1
    std::vector<std::vector<int> > shapes;
    std::function<void(int)> rec = [&](int i) {
      if (i == k) { shapes.push_back(p); return; }
      for (int a = i; a >= 1; a = p[a - 1]) { p[i] = a; rec(i + 1); }
    };
    if (k == 1) shapes.push_back(p); else rec(1);
    for (auto& sh : shapes) {
      Doc d = dimpl().createDocument("", "", 0);
      Elem outer = d.createElement("outer");
      d.appendChild(outer);
      outer.appendChild(d.createElement("before"));
      Tree t;
      for (int i = 0; i < k; ++i) {
        Elem e = d.createElement("n");
        t.n.push_back(e); t.par.push_back(sh[i]); t.kind.push_back(1); t.lab.push_back(1);
        (sh[i] ? t.n[sh[i]] : (Node)outer).appendChild(e);
      }
      outer.appendChild(d.createElement("after"));
      int total = 1; for (int i = 0; i < k; ++i) total *= 3;
      for (int m = 0; m < total; ++m) {
        int x = m; for (int i = 0; i < k; ++i) { t.lab[i] = 1 + x % 3; x /= 3; }
        LabelFilter f; f.t = &t;
        for (int root = 1; root <= (k > 2 ? 2 : 1); ++root) {
          t.root = root;
          Walker w = d.createDocumentTraversal().createTreeWalker(t.n[root], Arabica::DOM::Traversal::SHOW_ALL, f, true);
          Line l;
          for (int c = root; c <= k; ++c) {
            bool in = false; for (int a = c; a; a = sh[a - 1]) if (a == root) in = true;
            if (!in) continue;
            for (int op = 0; op < 7; ++op) { doSet(w, t, l, c); doMove(w, t, l, op); }
          }
          l.write(o, t, show, true);
        }
      }
    }
  }
}

static Doc parseDoc(const std::string& xml) {
  Arabica::SAX2DOM::Parser<S> p;
  std::istringstream ss(xml);
  Arabica::SAX::InputSource<S> is(ss);
  p.parse(is);
  return p.getDocument();
}
static void grow(Rng& r, Doc& d, Node at, int depth, int& budget) {
  int k = r.below(5);
  for (int i = 0; i < k && budget > 0; ++i) {
    --budget;
    Node c;
    switch (r.below(9)) {
      case 0: c = d.createTextNode("t"); break; case 1: c = d.createComment("c"); break;
      case 2: c = d.createCDATASection("cd"); break; case 3: c = d.createProcessingInstruction("p", "d"); break;
      case 4: c = d.createEntityReference(r.chance(50) ? "e" : "f"); break;
      default: c = d.createElement("x");
    }
    at.appendChild(c);
    if (c.getNodeType() == NB::ELEMENT_NODE && depth > 0) grow(r, d, c, depth - 1, budget);
  }
}
static void randomRun(Rng& r, std::ostream& o) {
  Doc d = parseDoc("<!DOCTYPE r [<!ENTITY e 'x<b>z</b>y'><!ENTITY f '<b><c/></b>'>]><r/>");
  int budget = 3 + r.below(22);
  int b2 = 2;
  if (r.chance(30)) { d.insertBefore(d.createComment("top"), d.getDocumentElement()); --b2; }
  if (r.chance(30)) d.appendChild(d.createProcessingInstruction("q", "d"));
  grow(r, d, d.getDocumentElement(), 3, budget);
  int rounds = 1 + r.below(4);
  Walker w; Node root, cur;
  unsigned long mask = 0; std::vector<int> show; bool expand = true; bool useFilter = true;
  LabelFilter f;
  Tree t;
  for (int round = 0; round < rounds; ++round) {
    Tree u; u.collect(d, 0, &r);
    if (round) {   // keep labels stable for nodes that stay, and the walker going from where it stands
      u.root = u.id(root);
      for (size_t i = 1; i < t.n.size(); ++i) { int j = u.id(t.n[i]); if (j > 0) u.lab[j - 1] = t.lab[i - 1]; }
      if (u.root <= 0 || u.id(cur) <= 0) return;
      bool in = false; for (int a = u.id(cur); a; a = u.par[a - 1]) if (a == u.root) in = true;
      if (!in) return;
    }
    t = u; f.t = &t;
    if (!round) {
      do { t.root = 1 + r.below((int)t.n.size() - 1); } while (t.kind[t.root - 1] == NB::DOCUMENT_TYPE_NODE || (t.root > 1 && t.kind[t.par[t.root - 1] - 1] == 5) || (r.chance(60) && t.par[t.root - 1] > 1));
      root = t.n[t.root];
      if (r.chance(30)) mask = Arabica::DOM::Traversal::SHOW_ALL;
      else for (int i = 0; i < 12; ++i) if (r.chance(60)) mask |= 1ul << i;
      for (int i = 0; i < 12; ++i) if (mask & (1ul << i)) show.push_back(i + 1);
      expand = r.chance(50); useFilter = r.chance(70);
      Arabica::DOM::Traversal::DocumentTraversal<S> dt = d.createDocumentTraversal();
      w = useFilter ? dt.createTreeWalker(root, mask, f, expand) : dt.createTreeWalker(root, mask, expand);
      if (w.getRoot() != root || w.getWhatToShow() != mask || w.getExpandEntityReferences() != expand || w.getCurrentNode() != root
          || w.getFilter() != (useFilter ? &f : 0)) { std::cerr << "walker settings\n"; abort(); }
    }
    if (!useFilter) for (auto& x : t.lab) x = 1;
    Line l;
    if (round) { l.ops.push_back("set"); l.res.push_back(t.id(cur)); l.cur.push_back(t.id(w.getCurrentNode())); }
    int moves = 5 + r.below(40), style = r.below(3);
    for (int i = 0; i < moves; ++i) {
      if (r.chance(8)) {
        int c = 1 + r.below((int)t.n.size() - 1);
        bool in = false, hid = false;
        for (int a = c; a; a = t.par[a - 1]) { if (a == t.root) in = true; if (a != c && t.kind[a - 1] == 5) hid = true; }
        if (in && !(hid && !expand)) doSet(w, t, l, c);
      }
      doMove(w, t, l, style == 0 ? 6 : style == 1 && r.chance(70) ? 5 + r.below(2) : r.below(7));
    }
    if (style == 0) for (int i = 0; i < moves; ++i) doMove(w, t, l, 5);
    l.write(o, t, show, expand);
    cur = w.getCurrentNode();
    // change the tree around the walker
    for (int i = 0; i < 3; ++i) {
      Node x = t.n[1 + r.below((int)t.n.size() - 1)], y = t.n[1 + r.below((int)t.n.size() - 1)];
      try {
        switch (r.below(3)) {
          case 0: y.appendChild(x); break;
          case 1: y.getParentNode() == 0 ? y : y.getParentNode().insertBefore(x, y); break;
          default: if (x != cur && x.getParentNode() != 0) x.getParentNode().removeChild(x);
        }
      } catch (Arabica::DOM::DOMException&) {}
    }
  }
}
int main(int argc, char** argv) {
  if (argc < 4) return 3;
  S mode = argv[1];
  alarm(600);
  if (mode == "all") { std::ofstream o(argv[3]); all(atoi(argv[2]), o); }
  else if (mode == "rand" && argc > 4) {
    std::ofstream o(argv[4]);
    for (int i = 0; i < atoi(argv[3]); ++i) { Rng r(atoi(argv[2]) * 100003 + i); randomRun(r, o); o.flush(); }
  } else return 3;
  return 0;
}
