// Evaluates XPath on random documents and records what came out.
//   xpath_driver axes <seed> <docs> <out>             every axis from every node
//   xpath_driver small <maxnodes> <out>               every axis from every node of every small tree
//   xpath_driver expr <seed> <docs> <n> <kind> <out>  n random expressions per document; kind: any path
//   xpath_driver pat <seed> <docs> <n> <out>          n random patterns per document against every node
//   xpath_driver fixed <out>                          grids of operators and functions over chosen values
#include "dom_gen.hpp"
#include "xpath_gen.hpp"
#include <XPath/XPath.hpp>
#include <cmath>
#include <set>
using namespace vf;
namespace XP = Arabica::XPath;
typedef Arabica::default_string_adaptor<S> SA;
typedef XP::NodeSet<S> NSet;
typedef XP::XPathValue<S> Val;

static S jnum(double v) {
  if (v != v) return "{\"k\":\"nan\",\"n\":0}";
  if (v == HUGE_VAL) return "{\"k\":\"inf\",\"n\":0}";
  if (v == -HUGE_VAL) return "{\"k\":\"minf\",\"n\":0}";
  if (v == 0 && std::signbit(v)) return "{\"k\":\"nz\",\"n\":0}";
  double q = v * 16;
  if (std::fabs(q) > 16000000 || q != std::floor(q)) return "{\"k\":\"other\",\"n\":0}";
  return "{\"k\":\"fin\",\"n\":" + num((long long)q) + "}";
}
// is s the number v written as XPath says: no exponent, exactly as many digits as are needed
static bool wellWritten(const S& s, double v) {
  if (v != v || std::isinf(v)) return true;
  size_t i = 0;
  if (i < s.size() && s[i] == '-') ++i;
  size_t d0 = i;
  while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
  if (i == d0) return false;
  if (i - d0 > 1 && s[d0] == '0') return false;
  if (i < s.size()) {
    if (s[i] != '.') return false;
    size_t f0 = ++i;
    while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
    if (i == f0 || i != s.size() || s[s.size() - 1] == '0') return false;
  }
  if (strtod(s.c_str(), 0) != v) return false;
  S dig;
  for (char c : s) if (isdigit((unsigned char)c)) dig += c;
  size_t a = dig.find_first_not_of('0');
  if (a == S::npos) return s == "0";
  size_t b = dig.find_last_not_of('0');
  int used = (int)(b - a + 1);
  int need = 1;
  for (char buf[64]; need < 17; ++need) { snprintf(buf, sizeof buf, "%.*e", need - 1, v); if (strtod(buf, 0) == v) break; }
  return used == need || (std::fabs(v) >= 1e15 && used >= need);
}
static S keys(const Raw& raw, const NSet& s) {
  S o = "[";
  for (size_t i = 0; i < s.size(); ++i) { if (i) o += ","; o += raw.key(s[i]); }
  return o + "]";
}
struct Vars : public XP::VariableResolver<S> {
  std::map<S, Val> m;
  Val resolveVariable(const S& ns, const S& name) const {
    auto i = m.find(name);
    if (i == m.end() || ns != "") throw XP::UnboundVariableException(name);
    return i->second;
  }
};
static const std::vector<S> NAMES = {"a", "b", "c", "div", "text"};
static const std::vector<S> TARGETS = {"t", "u-1"};
static const std::vector<std::pair<S, S> > PREFIXES = {{"p", "u1"}, {"q", "u2"}};
static const std::vector<S> TEXTS = {"", "1", "2", "10", " 3 ", "-4", "x", "ab", " \n", "abc", "0", "1.5", "NaN", "1e1", "+1", "a b  c", "-", "."};
static const std::vector<S> STRINGS = {"", "a", "b", "abc", "1", "-2", " 12 ", "1.25", "-.5", "5.", ".", "1e3", "Infinity", "NaN", "+7", "--1", "ab", "ba", "12345", "  a  b ", "inf", "0x10", "1 2", "c", "bc", "ABC", "aab", "\t", "1,5", "000", "-0"};
static void addVars(Vars& v, const Raw& raw, Rng& r, S& json) {
  static const double N[] = {0, 1, 2.5, -3, -0.5, -1.5, HUGE_VAL, -HUGE_VAL, NAN, -0.0, 0.0625};
  double n1 = N[r.below(11)], n2 = N[r.below(11)];
  S s1 = STRINGS[r.below((int)STRINGS.size())], s2 = STRINGS[r.below((int)STRINGS.size())];
  bool b = r.chance(50);
  NSet x;
  std::set<int> used;
  S kx;
  int c = r.below(4);
  for (int i = 0; i < c; ++i) {
    int k = r.below((int)raw.n.size());
    const Node& nd = raw.n[k];
    if (nd.getNodeType() == NB::DOCUMENT_TYPE_NODE || nd.getNamespaceURI() == XMLNSNS || !used.insert(k).second) continue;
    if ((nd.getNodeType() == NB::TEXT_NODE || nd.getNodeType() == NB::CDATA_SECTION_NODE) && nd.getPreviousSibling() != 0 &&
        (nd.getPreviousSibling().getNodeType() == NB::TEXT_NODE || nd.getPreviousSibling().getNodeType() == NB::CDATA_SECTION_NODE)) continue;
    x.push_back(nd);
    kx += (kx == "" ? "" : ",") + raw.key(nd);
  }
  v.m["n"] = XP::NumericValue<S>::createValue(n1); v.m["m"] = XP::NumericValue<S>::createValue(n2);
  v.m["s"] = XP::StringValue<S>::createValue(s1); v.m["t"] = XP::StringValue<S>::createValue(s2);
  v.m["f"] = XP::BoolValue<S, SA>::createValue(b);
  v.m["x"] = XP::NodeSetValue<S>::createValue(x);
  json = "{\"n\":{\"t\":\"n\",\"v\":" + jnum(n1) + "},\"m\":{\"t\":\"n\",\"v\":" + jnum(n2) + "},\"s\":{\"t\":\"s\",\"v\":" + jstr(s1) + "},\"t\":{\"t\":\"s\",\"v\":" + jstr(s2) +
         "},\"f\":{\"t\":\"b\",\"v\":" + (b ? "true" : "false") + "},\"x\":{\"t\":\"ns\",\"v\":[" + kx + "]}}";
}
struct Session {
  std::ofstream out;
  int line, docLine;
  Vars vars;
  std::unique_ptr<Raw> raw;
  XP::XPath<S> xp;
  XP::StandardNamespaceContext<S> nsc;
  std::vector<Node> ctx;              // every XPath node, namespace nodes included
  std::vector<NSet> keepAlive;
  explicit Session(const S& f) : out(f), line(0), docLine(0) {
    for (auto& p : PREFIXES) nsc.addNamespaceDeclaration(p.second, p.first);
    xp.setNamespaceContext(nsc);
    xp.setVariableResolver(vars);
  }
  void write(const S& s) { out << s << "\n"; ++line; }
  void document(const Node& root, Rng& r) {
    inProgress("describing a document");
    raw.reset(new Raw(root));
    S vj;
    addVars(vars, *raw, r, vj);
    write("{\"k\":\"doc\",\"R\":" + raw->json() + ",\"vars\":" + vj + "}");
    docLine = line;
    ctx.clear(); keepAlive.clear();
    auto isText = [](const Node& n) { return n != 0 && (n.getNodeType() == NB::TEXT_NODE || n.getNodeType() == NB::CDATA_SECTION_NODE); };
    for (auto& n : raw->n) {
      if (n.getNodeType() == NB::DOCUMENT_TYPE_NODE || n.getNamespaceURI() == XMLNSNS) continue;
      if (isText(n) && isText(n.getPreviousSibling())) continue;
      ctx.push_back(n);
      if (n.getNodeType() == NB::ELEMENT_NODE) {
        inProgress("namespace::* of node " + raw->key(n) + " of " + raw->json());
        keepAlive.push_back(xp.compile("namespace::*").evaluateAsNodeSet(n));
        for (size_t i = 0; i < keepAlive.back().size(); ++i) ctx.push_back(keepAlive.back()[i]);
      }
    }
  }
  static const char* axisName(int a) {
    static const char* N[] = {"ancestor", "ancestor-or-self", "attribute", "child", "descendant", "descendant-or-self", "following", "following-sibling", "namespace", "parent", "preceding", "preceding-sibling", "self"};
    return N[a];
  }
  void axes(const Node& c) {
    S o = "{\"k\":\"ax\",\"d\":" + num(docLine) + ",\"c\":" + raw->key(c) + ",\"a\":{";
    for (int a = XP::ANCESTOR; a <= XP::SELF; ++a) {
      inProgress(S(axisName(a)) + " from " + raw->key(c) + " of " + raw->json());
      if (a) o += ",";
      o += jstr(axisName(a)) + ":[";
      XP::AxisEnumerator<S> e(c, (XP::Axis)a);
      int n = 0;
      for (; *e != 0 && n < 200; ++e, ++n) { if (n) o += ","; o += raw->key(*e); }
      o += "]";
    }
    write(o + "}}");
  }
  void expr(const E& e, const S& src, const Node& c, int pos, int last) {
    S head = "\"d\":" + num(docLine) + ",\"c\":" + raw->key(c) + ",\"p\":" + num(pos) + ",\"l\":" + num(last) + ",\"src\":" + jstr(src) + ",\"e\":" + json(e);
    inProgress("{" + head + ",\"R\":" + raw->json() + "}");
    S o = "{\"k\":\"x\"," + head;
    try {
      XP::ExecutionContext<S> ec;
      ec.setPosition(pos); ec.setLast(last);
      ec.setVariableResolver(vars);
      XP::XPathExpression<S> ex = xp.compile_expr(src);
      Val v = ex.evaluate(c, ec);
      const char* T[] = {"any", "b", "n", "s", "ns"};
      bool b = v.asBool(); double n = v.asNumber(); S s = v.asString();
      const NSet& ns = v.asNodeSet();
      bool same = ex.evaluateAsBool(c, ec) == b && ex.evaluateAsString(c, ec) == s;
      double n2 = ex.evaluateAsNumber(c, ec);
      same = same && (n2 == n || (n2 != n2 && n != n));
      NSet ord(ns);
      S rawKeys = keys(*raw, ns);
      ord.to_document_order();
      if (v.type() == XP::NODE_SET) {
        NSet again = ex.evaluateAsNodeSet(c, ec);
        again.to_document_order();
        same = same && keys(*raw, again) == keys(*raw, ord);
      }
      o += ",\"ok\":true,\"t\":" + jstr(T[v.type()]) + ",\"b\":" + (b ? "true" : "false") + ",\"n\":" + jnum(n) + ",\"s\":" + jstr(s) +
           ",\"ns\":" + rawKeys + ",\"o\":" + keys(*raw, ord) + ",\"same\":" + (same ? "true" : "false") +
           ",\"ww\":" + (v.type() == XP::NUMBER && !wellWritten(s, n) ? "false" : "true");
    } catch (const std::exception& x) {
      o += ",\"ok\":false,\"err\":" + jstr(x.what());
    }
    write(o + "}");
  }
  void pattern(const std::vector<E>& alts, const S& src) {
    S head = "\"d\":" + num(docLine) + ",\"src\":" + jstr(src) + ",\"e\":" + json(alts);
    inProgress("{" + head + ",\"R\":" + raw->json() + "}");
    S o = "{\"k\":\"m\"," + head;
    try {
      std::vector<XP::MatchExpr<S> > ms = xp.compile_match(src);
      XP::ExecutionContext<S> ec;
      ec.setVariableResolver(vars);
      std::vector<int> pri;
      S hit;
      for (size_t i = 0; i < ms.size(); ++i) {
        pri.push_back((int)std::floor(ms[i].priority() * 4 + 0.5));
        if (i) hit += ",";
        hit += "[";
        bool f = true;
        for (auto& c : ctx)
          if (!Raw::isNs(c) && ms[i].evaluate(c, ec)) { if (!f) hit += ","; f = false; hit += raw->key(c); }
        hit += "]";
      }
      o += ",\"ok\":true,\"pri\":" + jints(pri) + ",\"hit\":[" + hit + "]";
    } catch (const std::exception& x) {
      o += ",\"ok\":false,\"err\":" + jstr(x.what());
    }
    write(o + "}");
  }
};
static DomGen domGen(Rng& r, int budget) {
  DomGen g(r);
  g.names = NAMES; g.targets = TARGETS; g.prefixes = PREFIXES; g.texts = TEXTS; g.avals = STRINGS;
  g.budget = budget;
  return g;
}
static Gen exprGen(Rng& r) {
  Gen g(r);
  g.names = NAMES; g.targets = TARGETS; g.prefixes = PREFIXES; g.strings = STRINGS;
  g.vars = {{"n", 'N'}, {"m", 'N'}, {"s", 'S'}, {"t", 'S'}, {"f", 'B'}, {"x", 'X'}};
  return g;
}
static Node randomTree(Rng& r, Doc& d, int budget, bool& frag) {
  DomGen g = domGen(r, budget);
  frag = r.chance(15);
  if (frag) {
    d = newDoc();
    Node f = d.createDocumentFragment();
    while (f.getFirstChild() == 0) { g.budget = budget; g.fill(d, f, 0); }
    return f;
  }
  d = g.document(r.chance(30));
  return d;
}
// every tree of up to n nodes below the document element, of elements, text and comments
static void smallTrees(Session& s, Rng& r, int maxn) {
  // a tree shape is a parent vector; node kinds 0 element, 1 text, 2 comment
  for (int n = 0; n <= maxn; ++n) {
    std::vector<int> par(n), kind(n);
    int shapes = 1;
    for (int i = 0; i < n; ++i) shapes *= (i + 1);
    int kinds = 1;
    for (int i = 0; i < n; ++i) kinds *= 3;
    for (int sh = 0; sh < shapes; ++sh)
      for (int kd = 0; kd < kinds; ++kd) {
        int a = sh, b = kd;
        bool ok = true;
        for (int i = 0; i < n; ++i) { par[i] = a % (i + 1) - 1; a /= i + 1; kind[i] = b % 3; b /= 3; }
        // preorder numbering only: the parent must be on the rightmost branch
        for (int i = 0; i < n && ok; ++i) {
          if (par[i] >= 0 && kind[par[i]] != 0) ok = false;
          if (i > 0 && par[i] != i - 1) { int q = par[i - 1]; while (q != par[i] && q >= 0) q = par[q]; if (q != par[i]) ok = false; }
        }
        if (!ok) continue;
        Doc d = newDoc();
        Elem top = d.createElementNS("", "a");
        d.appendChild(top);
        top.setAttribute("x", "1");
        std::vector<Node> nd(n);
        for (int i = 0; i < n; ++i) {
          Node p = par[i] < 0 ? Node(top) : nd[par[i]];
          if (kind[i] == 0) { Elem e = d.createElementNS("", "b"); if (i % 2) e.setAttribute("y", "2"); nd[i] = e; }
          else if (kind[i] == 1) { if (i % 2) nd[i] = d.createCDATASection("t"); else nd[i] = d.createTextNode("t"); }
          else nd[i] = d.createComment("c");
          p.appendChild(nd[i]);
        }
        s.document(d, r);
        for (auto& c : s.ctx) s.axes(c);
      }
  }
}
static void fixedGrid(Session& s, Rng& r) {
  Doc d = parseDoc("<a x='1' y='-2'><b>1</b><b>2</b><b>x</b><c/><c>10<d>5</d></c></a>");
  s.document(d, r);
  std::vector<E> v;
  static const int N[] = {0, 8, 16, 24, 32, 40, 48, 1, 160, 1600};
  for (int n : N) { v.push_back(numlit(n)); E e = mk("neg"); e->sub = {numlit(n)}; v.push_back(e); }
  v.push_back(bin("div", numlit(16), numlit(0)));
  E minf = mk("neg"); minf->sub = {bin("div", numlit(16), numlit(0))}; v.push_back(minf);
  v.push_back(bin("div", numlit(0), numlit(0)));
  int numbers = (int)v.size();
  for (auto& t : STRINGS) v.push_back(strlit(t));
  v.push_back(fn("true")); v.push_back(fn("false"));
  auto path = [](std::vector<S> nm) { E e = mk("path"); for (auto& n : nm) { St st; st.ax = "child"; st.nt = {"name", "", n}; st.ntText = n; e->st.push_back(st); } return e; };
  v.push_back(path({"b"})); v.push_back(path({"c"})); v.push_back(path({"zz"})); v.push_back(path({"c", "d"}));
  Node c = d.getDocumentElement();
  auto ev = [&](const E& e) { s.expr(e, text(e, 0), c, 1, 1); };
  static const char* OPS[] = {"=", "!=", "<", "<=", ">", ">="};
  static const char* AR[] = {"+", "-", "*", "div", "mod"};
  for (auto& a : v) {
    for (const char* f : {"string", "number", "boolean", "floor", "ceiling", "round", "not", "string-length", "normalize-space"}) ev(fn(f, {a}));
    E n = mk("neg"); n->sub = {a}; ev(n);
    for (auto& b : v) for (const char* o : OPS) ev(bin(o, a, b));
  }
  for (int i = 0; i < numbers; ++i) for (int j = 0; j < numbers; ++j) {
    for (const char* o : AR) ev(bin(o, v[i], v[j]));
    if (i % 3 != 1) ev(fn("substring", {strlit("12345"), v[i], v[j]}));
  }
  for (int i = 0; i < numbers; ++i) { ev(fn("substring", {strlit("12345"), v[i]})); ev(fn("substring", {strlit(""), v[i]})); }
  static const char* TS[] = {"", "a", "b", "ab", "abc", "ba", "aba"};
  for (const char* a : TS) for (const char* b : TS) {
    for (const char* f : {"contains", "starts-with", "substring-before", "substring-after"}) ev(fn(f, {strlit(a), strlit(b)}));
    for (const char* t : {"", "x", "xy", "ba"}) ev(fn("translate", {strlit(a), strlit(b), strlit(t)}));
  }
}
int main(int argc, char** argv) {
  if (argc < 3) return 3;
  S mode = argv[1];
  if (mode == "axes" && argc == 5) {
    Session s(argv[4]);
    Rng r(atoi(argv[2]));
    for (int i = 0; i < atoi(argv[3]); ++i) {
      Doc d; bool frag;
      Node t = randomTree(r, d, 4 + r.below(14), frag);
      s.document(t, r);
      for (auto& c : s.ctx) s.axes(c);
    }
    return 0;
  }
  if (mode == "small" && argc == 4) { Session s(argv[3]); Rng r(1); smallTrees(s, r, atoi(argv[2])); return 0; }
  if (mode == "expr" && argc == 7) {
    Session s(argv[6]);
    Rng r(atoi(argv[2]));
    bool paths = S(argv[5]) == "path";
    for (int i = 0; i < atoi(argv[3]); ++i) {
      Doc d; bool frag;
      Node t = randomTree(r, d, 4 + r.below(14), frag);
      s.document(t, r);
      for (int j = 0; j < atoi(argv[4]); ++j) {
        Gen g = exprGen(r);
        g.noAbs = frag;
        E e = paths ? g.nodes(3) : g.any(1 + r.below(4));
        S src = text(e, &r);
        if (src.size() > 600) { --j; continue; }
        int last = 1 + r.below(4);
        s.expr(e, src, s.ctx[r.below((int)s.ctx.size())], 1 + r.below(last), last);
      }
    }
    return 0;
  }
  if (mode == "pat" && argc == 6) {
    Session s(argv[5]);
    Rng r(atoi(argv[2]));
    for (int i = 0; i < atoi(argv[3]); ++i) {
      Doc d; bool frag;
      do { Node t = randomTree(r, d, 4 + r.below(12), frag); if (!frag) s.document(t, r); } while (frag);
      for (int j = 0; j < atoi(argv[4]); ++j) {
        Gen g = exprGen(r);
        std::vector<E> alts;
        int n = r.chance(75) ? 1 : 2 + r.below(2);
        for (int k = 0; k < n; ++k) alts.push_back(g.pat(2));
        s.pattern(alts, pattern(alts, &r));
      }
    }
    return 0;
  }
  if (mode == "fixed" && argc == 3) { Session s(argv[2]); Rng r(1); fixedGrid(s, r); return 0; }
  return 3;
}
