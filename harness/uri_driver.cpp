// Resolves enumerated and random URI references and records everything the URI class shows.
//   uri_driver all <maxsegs> <out> | uri_driver rand <seed> <n> <out>
#include "common.hpp"
#include <io/uri.hpp>
using namespace vf;
typedef std::string S;
struct Ref {
  S scheme; bool auth; S host, port; bool abs; std::vector<S> segs; bool q; S query; bool f; S frag;
  Ref() : auth(false), abs(false), q(false), f(false) {}
  S str() const {
    S s;
    if (!scheme.empty()) s += scheme + ":";
    if (auth) { s += "//" + host; if (!port.empty()) s += ":" + port; }
    if (abs) s += "/";
    for (size_t i = 0; i < segs.size(); ++i) { if (i) s += "/"; s += segs[i]; }
    if (q) s += "?" + query;
    if (f) s += "#" + frag;
    return s;
  }
  S json() const {
    return "{\"scheme\":" + jstr(scheme) + ",\"auth\":" + (auth ? "[" + jstr(host) + "," + jstr(port) + "]" : "[]") + ",\"abs\":" + (abs ? "true" : "false")
      + ",\"segs\":" + jstrs(segs) + ",\"query\":" + (q ? "[" + jstr(query) + "]" : "[]") + ",\"frag\":" + (f ? "[" + jstr(frag) + "]" : "[]") + "}";
  }
};
static S shows(const Arabica::io::URI& u) {
  return "{\"str\":" + jstr(u.as_string()) + ",\"scheme\":" + jstr(u.scheme()) + ",\"host\":" + jstr(u.host()) + ",\"port\":" + jstr(u.port())
    + ",\"path\":" + jstr(u.path()) + ",\"abs\":" + (u.is_absolute() ? "true" : "false") + "}";
}
static void record(std::ostream& o, const Ref& b, const Ref& r) {
  inProgress("base " + b.str() + " reference " + r.str());
  Arabica::io::URI base(b.str()), ref(r.str()), res(base, r.str()), copy(res), other;
  other = copy;
  Arabica::io::URI sw1(base), sw2(res); sw1.swap(sw2);
  bool stable = copy == res && other == res && !(other != res) && shows(copy) == shows(res) && shows(other) == shows(res)
    && sw1 == res && sw2 == base && shows(sw1) == shows(res) && shows(Arabica::io::URI(b.str())) == shows(base);
  o << "{\"b\":" << b.json() << ",\"r\":" << r.json() << ",\"base\":" << shows(base) << ",\"ref\":" << shows(ref) << ",\"res\":" << shows(res)
    << ",\"stable\":" << (stable ? "true" : "false") << "}\n";
}
// within the generic syntax, and not one of the ambiguous forms
static bool legal(const Ref& u) {
  if (u.auth && !u.abs && !u.segs.empty()) return false;
  if (u.abs && u.segs.empty()) return false;
  if (!u.auth) for (size_t i = 0; i < u.segs.size(); ++i) if (u.segs[i].empty() && (i + 1 < u.segs.size() || (!u.abs && i == 0))) return false;
  if (u.scheme.empty() && !u.auth && !u.abs && !u.segs.empty() && u.segs[0].find(':') != S::npos) return false;
  return true;
}
static void allSegs(const std::vector<S>& al, int n, std::vector<std::vector<S> >& out) {
  std::vector<std::vector<S> > cur(1);
  out = cur;
  for (int k = 0; k < n; ++k) {
    std::vector<std::vector<S> > next;
    for (auto& c : cur) for (auto& a : al) { auto d = c; d.push_back(a); next.push_back(d); }
    out.insert(out.end(), next.begin(), next.end());
    cur = next;
  }
}
static Ref mk(S scheme, const char* host, S port, bool abs, std::vector<S> segs, const char* q, const char* f) {
  Ref r; r.scheme = scheme; if (host) { r.auth = true; r.host = host; r.port = port; } r.abs = abs; r.segs = segs;
  if (q) { r.q = true; r.query = q; } if (f) { r.f = true; r.frag = f; }
  return r;
}
static void all(int n, std::ostream& o) {
  std::vector<Ref> bases;
  bases.push_back(mk("http", "h", "", true, {"a", "b", "c"}, 0, 0));
  bases.push_back(mk("http", "h", "81", true, {"a", "b", ""}, "x/../y?z", "f/.."));
  bases.push_back(mk("http", "h", "", false, {}, 0, 0));
  bases.push_back(mk("file", "", "", true, {"a", "b"}, 0, 0));
  bases.push_back(mk("file", 0, "", false, {"a", "b"}, 0, 0));
  bases.push_back(mk("", 0, "", false, {"a", "b"}, 0, 0));
  bases.push_back(mk("", 0, "", false, {"a"}, 0, 0));
  bases.push_back(mk("", 0, "", false, {"..", "..", "a", "b"}, 0, 0));
  bases.push_back(mk("", 0, "", true, {"a", "b"}, "q", 0));
  bases.push_back(mk("", "h", "7", true, {"a", "b"}, 0, 0));
  std::vector<std::vector<S> > segs;
  allSegs({"", ".", "..", "g"}, n, segs);
  const char* qs[] = {0, "y/./x"};
  for (auto& b : bases) for (auto& s : segs) for (int abs = 0; abs < 2; ++abs) for (int q = 0; q < 2; ++q) {
    Ref r = mk("", 0, "", abs, s, qs[q], 0);
    if (legal(r)) record(o, b, r);
    if (s.size() < 3) for (S sc : {S("http"), S("file"), S("")}) for (int au = 0; au < 2; ++au) for (int f = 0; f < 2; ++f) {
      if (sc.empty() && !au && !f) continue;
      Ref x = mk(sc, au ? "k" : 0, au && q ? "99" : "", abs, s, qs[q], f ? "s/../t" : 0);
      if (legal(x)) record(o, b, x);
    }
  }
}
static Ref random(Rng& r, bool base) {
  static const char* schemes[] = {"http", "https", "file", "ftp", "urn", "a1+b-c.d", "HTTP"};
  static const char* hosts[] = {"h", "www.example.org", "u:p@h", "u@h", "[::1]", "", "127.0.0.1"};
  static const char* segs[] = {"", ".", "..", "a", "bb", "bb:c", "...", "d.e", ".f", "g.", "x;y=1", "%2e%2E", "~", "@", "a=b&c"};
  static const char* qs[] = {"", "x", "a/b", "../..", "?", "x=1&y=/z", "http://k/l", "a:b"};
  for (;;) {
    Ref u;
    if (r.chance(base ? 70 : 30)) u.scheme = schemes[r.below(7)];
    if (r.chance(base ? 70 : 25)) { u.auth = true; u.host = hosts[r.below(7)]; if (!u.host.empty() && r.chance(40)) u.port = r.chance(50) ? "8080" : "1"; }
    int n = r.below(6);
    for (int i = 0; i < n; ++i) u.segs.push_back(segs[r.chance(60) ? r.below(4) : r.below(15)]);
    if (n) u.abs = r.chance(50) || u.auth;
    if (r.chance(30)) { u.q = true; u.query = qs[r.below(8)]; }
    if (r.chance(30)) { u.f = true; u.frag = qs[r.below(8)]; }
    if (legal(u)) return u;
  }
}
int main(int argc, char** argv) {
  if (argc < 4) return 3;
  alarm(300);
  if (S(argv[1]) == "all") { std::ofstream o(argv[3]); all(atoi(argv[2]), o); }
  else if (argc > 4) {
    std::ofstream o(argv[4]);
    Rng r(atoi(argv[2]));
    for (int i = 0; i < atoi(argv[3]); ++i) { Ref b = random(r, true); record(o, b, random(r, false)); }
  } else return 3;
  return 0;
}
