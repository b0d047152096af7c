// Drives NamespaceSupport: every reachable state of a bounded instance under every call, and random histories.
//   ns_driver bfs <p1,p2..> <u1,u2..> <depth> <out> | ns_driver rand <seed> <n> <out>
#include "common.hpp"
#include <SAX/helpers/NamespaceSupport.hpp>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <set>
#include <deque>
#include <memory>
using namespace vf;
typedef std::string S;
typedef Arabica::SAX::NamespaceSupport<S, Arabica::default_string_adaptor<S> > NS;
struct Op { S k, p, u, res; };
static const char* XML = "http://www.w3.org/XML/1998/namespace";
static std::vector<S> PFX = {"", "p", "q", "xml", "xmlns", "zz"}, URIS = {"", "u", "v", XML, "w"};
struct Name { S raw, pfx, local; bool ok; };
static std::vector<Name> NAMES = {{"a", "", "a", true}, {"p:a", "p", "a", true}, {"q:b-1", "q", "b-1", true}, {"xml:lang", "xml", "lang", true}, {"xmlns:p", "xmlns", "p", true},
  {"zz:a", "zz", "a", true}, {"_x", "", "_x", true}, {":a", "", "", false}, {"a:", "", "", false}, {"p:q:r", "", "", false}, {"", "", "", false}, {"1a", "", "", false}, {"p:1", "", "", false}, {"a b", "", "", false}};
static S nm(NS& ns, const Name& n, bool attr) {
  try { auto q = ns.processName(n.raw, attr); return jstrs({q.namespaceUri(), q.localName(), q.prefix(), q.rawName()}); }
  catch (Arabica::SAX::SAXException&) { return "[\"!\"]"; }
}
static S observe(NS& ns) {
  S r = "{\"uri\":";
  std::vector<S> v; for (auto& p : PFX) v.push_back(ns.getURI(p)); r += jstrs(v);
  v.clear(); for (auto& u : URIS) v.push_back(ns.getPrefix(u)); r += ",\"one\":" + jstrs(v) + ",\"all\":" + jstrs(ns.getPrefixes()) + ",\"by\":[";
  for (size_t i = 0; i < URIS.size(); ++i) r += (i ? "," : "") + jstrs(ns.getPrefixes(URIS[i]));
  r += "],\"decl\":" + jstrs(ns.getDeclaredPrefixes()) + ",\"el\":[";
  for (size_t i = 0; i < NAMES.size(); ++i) r += (i ? "," : "") + nm(ns, NAMES[i], false);
  r += "],\"at\":[";
  for (size_t i = 0; i < NAMES.size(); ++i) r += (i ? "," : "") + nm(ns, NAMES[i], true);
  return r + "]}";
}
static void apply(NS& ns, Op& o) {
  if (o.k == "push") ns.pushContext(); else if (o.k == "pop") ns.popContext(); else if (o.k == "reset") ns.reset();
  else o.res = ns.declarePrefix(o.p, o.u) ? "yes" : "no";
}
static void line(std::ostream& o, const std::vector<Op>& ops, int from, const std::vector<S>& obs) {
  o << "{\"pfx\":" << jstrs(PFX) << ",\"uris\":" << jstrs(URIS) << ",\"names\":[";
  for (size_t i = 0; i < NAMES.size(); ++i) o << (i ? "," : "") << (NAMES[i].ok ? jstrs({NAMES[i].pfx, NAMES[i].local}) : "[\"!\"]");
  o << "],\"from\":" << from << ",\"ops\":[";
  for (size_t i = 0; i < ops.size(); ++i) { o << (i ? "," : ""); if (ops[i].k == "declare") o << jstrs({ops[i].k, ops[i].p, ops[i].u, ops[i].res}); else o << jstrs({ops[i].k}); }
  o << "],\"obs\":[";
  for (size_t i = 0; i < obs.size(); ++i) o << (i ? "," : "") << obs[i];
  o << "]}\n";
}
static S opsStr(const std::vector<Op>& v) { S s; for (auto& o : v) s += o.k + (o.k == "declare" ? "(" + o.p + "," + o.u + ")" : "") + " "; return s; }
static std::vector<S> split(const S& s) { std::vector<S> r; std::istringstream i(s + ","); S x; while (std::getline(i, x, ',')) r.push_back(x); return r; }
static void bfs(const std::vector<S>& ps, const std::vector<S>& us, int depth, std::ostream& o) {
  std::vector<Op> al = {{"push"}, {"pop"}, {"reset"}};
  for (auto& p : ps) for (auto& u : us) al.push_back({"declare", p, u});
  for (auto& u : us) { al.push_back({"declare", "xml", u}); al.push_back({"declare", "xmlns", u}); }
  struct St { std::vector<Op> h; int d; };
  std::deque<St> q; std::set<S> seen;
  q.push_back(St{{}, 1});
  { NS n; seen.insert("start"); }
  std::set<S> keys;
  auto key = [&](const std::vector<Op>& h, int d) {
    NS n; for (auto x : h) apply(n, x);
    S k;
    for (int i = 0; i < d; ++i) { auto v = n.getDeclaredPrefixes(); std::set<S> s(v.begin(), v.end()); k += "/"; for (auto& p : s) k += p + "=" + n.getURI(p) + ";"; if (i + 1 < d) n.popContext(); }
    return k;
  };
  keys.insert(key({}, 1));
  while (!q.empty()) {
    St s = q.front(); q.pop_front();
    for (auto op : al) {
      if (op.k == "pop" && s.d == 1) continue;
      if (op.k == "push" && s.d == depth) continue;
      std::vector<Op> h = s.h; h.push_back(op);
      inProgress(opsStr(h));
      NS n; for (auto& x : h) apply(n, x);
      line(o, h, (int)h.size(), {observe(n)});
      int d = op.k == "push" ? s.d + 1 : op.k == "pop" ? s.d - 1 : op.k == "reset" ? 1 : s.d;
      if (keys.insert(key(h, d)).second) q.push_back(St{h, d});
    }
  }
  std::cout << "states " << keys.size() << "\n";
}
int main(int argc, char** argv) {
  if (argc < 5) return 3;
  alarm(300);
  if (S(argv[1]) == "bfs") { std::ofstream o(argv[5]); bfs(split(argv[2]), split(argv[3]), atoi(argv[4]), o); return 0; }
  std::ofstream o(argv[4]);
  Rng r(atoi(argv[2]));
  for (int i = 0; i < atoi(argv[3]); ++i) {
    NS n; std::vector<Op> h; std::vector<S> obs; int d = 1;
    int len = 5 + r.below(40);
    obs.push_back("");
    for (int k = 0; k < len; ++k) {
      Op op;
      int x = r.below(100);
      if (x < 30 && d < 8) { op.k = "push"; ++d; } else if (x < 50 && d > 1) { op.k = "pop"; --d; } else if (x > 97) { op.k = "reset"; d = 1; }
      else { op.k = "declare"; op.p = PFX[r.below(6)]; op.u = URIS[r.below(5)]; }
      h.push_back(op);
      inProgress(opsStr(h));
      apply(n, h.back());
      if (k == 0) obs[0] = observe(n); else obs.push_back(observe(n));
    }
    line(o, h, 1, obs);
  }
  return 0;
}
