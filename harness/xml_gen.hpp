#ifndef VF_XML_GEN_HPP
#define VF_XML_GEN_HPP
// Random XML documents: an abstract document, written both as JSON (for the specification) and as markup
// (for the parsers), with random spelling of everything the markup leaves open.
#include "common.hpp"
#include <map>
#include <memory>
#include <set>
#include <cstring>
#include <istream>
#include <sstream>
#include <fstream>
namespace vf {
typedef std::string S;
inline S jarr(const std::vector<S>& v) { S r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += v[i]; } return "[" + r + "]"; }
inline S hexs(unsigned c) { char b[12]; snprintf(b, sizeof b, "{%x}", c); return b; }
// bytes of UTF-8 to printable ASCII
inline S escaped(const S& s) {
  S r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    if (c < 0x80) { if (c < 0x20 || c == 0x7f || c == '{' || c == '}') r += hexs(c); else r += c; ++i; continue; }
    int n = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : c >= 0xc0 ? 1 : 0; unsigned v = c & (n == 3 ? 7 : n == 2 ? 15 : 31); size_t j = i + 1; bool ok = n > 0;
    for (int k = 0; k < n && ok; ++k, ++j) { if (j >= s.size() || (s[j] & 0xc0) != 0x80) ok = false; else v = (v << 6) | (s[j] & 0x3f); }
    if (!ok) { r += "{bad " + hexs(c) + "}"; ++i; } else { r += hexs(v); i = j; }
  }
  return r;
}
inline S utf8(unsigned c) {
  S r;
  if (c < 0x80) r += (char)c;
  else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 0x3f)); }
  else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 0x3f)); r += (char)(0x80 | (c & 0x3f)); }
  else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 0x3f)); r += (char)(0x80 | ((c >> 6) & 0x3f)); r += (char)(0x80 | (c & 0x3f)); }
  return r;
}
struct Piece { char k; S s; unsigned c; };           // t text, n line end, b tab, c character reference, e entity
typedef std::vector<Piece> Pieces;
inline S json(const Pieces& ps) {
  std::vector<S> v;
  for (auto& p : ps) {
    if (p.k == 't') v.push_back("[\"t\"," + jstr(escaped(p.s)) + "]");
    else if (p.k == 'n') v.push_back("[\"n\"]");
    else if (p.k == 'b') v.push_back("[\"b\"]");
    else if (p.k == 'c') v.push_back("[\"c\"," + jstr(escaped(utf8(p.c))) + "]");
    else v.push_back("[\"e\"," + jstr(p.s) + "]");
  }
  return jarr(v);
}
struct Qn { S p, l; S str() const { return p.empty() ? l : p + ":" + l; } bool operator<(const Qn& o) const { return str() < o.str(); } };
inline S json(const Qn& q) { return "[" + jstr(escaped(q.p)) + "," + jstr(escaped(q.l)) + "]"; }
struct XAttr { Qn q; Pieces v; };
struct XNode;
typedef std::shared_ptr<XNode> XN;
struct XNode { S k; Qn q; std::vector<XAttr> at; std::vector<XN> ch; Pieces v; S s; };   // el tx cd cm pi er bad
inline S json(const std::vector<XN>& v);
inline S json(const XN& n) {
  S r = "{\"k\":" + jstr(n->k);
  if (n->k == "el") {
    std::vector<S> a; for (auto& x : n->at) a.push_back("{\"q\":" + json(x.q) + ",\"v\":" + json(x.v) + "}");
    r += ",\"q\":" + json(n->q) + ",\"at\":" + jarr(a) + ",\"ch\":" + json(n->ch);
  }
  else if (n->k == "pi") r += ",\"s\":" + jstr(escaped(n->s)) + ",\"v\":" + json(n->v);
  else if (n->k == "er" || n->k == "bad") r += ",\"s\":" + jstr(n->s);
  else r += ",\"v\":" + json(n->v);
  return r + "}";
}
inline S json(const std::vector<XN>& v) { std::vector<S> p; for (auto& n : v) p.push_back(json(n)); return jarr(p); }
struct Model { S t, q, n; std::vector<Model> ch; };
inline S json(const Model& m) { std::vector<S> c; for (auto& x : m.ch) c.push_back(json(x)); return "{\"t\":" + jstr(m.t) + ",\"q\":" + jstr(m.q) + ",\"n\":" + jstr(escaped(m.n)) + ",\"ch\":" + jarr(c) + "}"; }
struct Item {                                         // of the internal subset
  S k;                                                // ent ment xent uent not eld atd cm pi
  S n, pub, sys, nota, mode, type, raw; Qn el, q; Pieces v; Model m; std::vector<XN> ch; bool tok, dflt; XN misc; std::vector<S> en;
  Item() : tok(false), dflt(false) {}
};
inline S json(const Item& i) {
  S r = "{\"k\":" + jstr(i.k);
  if (i.k == "ent") r += ",\"n\":" + jstr(i.n) + ",\"v\":" + json(i.v);
  else if (i.k == "ment") r += ",\"n\":" + jstr(i.n) + ",\"raw\":" + jstr(escaped(i.raw)) + ",\"ch\":" + json(i.ch);
  else if (i.k == "xent") r += ",\"n\":" + jstr(i.n) + ",\"pub\":" + jstr(i.pub) + ",\"sys\":" + jstr(i.sys) + ",\"ch\":" + json(i.ch);
  else if (i.k == "uent") r += ",\"n\":" + jstr(i.n) + ",\"pub\":" + jstr(i.pub) + ",\"sys\":" + jstr(i.sys) + ",\"nota\":" + jstr(i.nota);
  else if (i.k == "not") r += ",\"n\":" + jstr(i.n) + ",\"pub\":" + jstr(i.pub) + ",\"sys\":" + jstr(i.sys);
  else if (i.k == "eld") r += ",\"q\":" + json(i.el) + ",\"m\":" + json(i.m);
  else if (i.k == "atd") r += ",\"el\":" + json(i.el) + ",\"q\":" + json(i.q) + ",\"type\":" + jstr(i.type) + ",\"tok\":" + (i.tok ? "true" : "false") + ",\"mode\":" + jstr(i.mode) + ",\"dflt\":" + (i.dflt ? "true" : "false") + ",\"v\":" + json(i.v);
  else return json(i.misc);
  return r + "}";
}
struct XDoc {
  bool hasDtd; S name, pub, sys; std::vector<Item> items; std::vector<XN> pre, mid, post; XN root; S markup;
  std::map<S, S> external;                            // system identifier to content
  XDoc() : hasDtd(false) {}
};
inline S json(const XDoc& d) {
  std::vector<S> it; for (auto& i : d.items) it.push_back(json(i));
  return "{\"dtd\":" + S(d.hasDtd ? "true" : "false") + ",\"name\":" + jstr(escaped(d.name)) + ",\"pub\":" + jstr(d.pub) + ",\"sys\":" + jstr(d.sys) + ",\"items\":" + jarr(it)
    + ",\"pre\":" + json(d.pre) + ",\"mid\":" + json(d.mid) + ",\"post\":" + json(d.post) + ",\"root\":" + json(d.root) + "}";
}
struct XOpts { bool dtd, bad, ext, extId, decls, ns, latin; int size; S encoding; XOpts() : dtd(true), bad(false), ext(false), extId(false), decls(true), ns(true), latin(false), size(10) {} };

struct XGen {
  Rng& r; XOpts o; S out; XDoc d;
  std::map<S, Item*> ents; int budget;
  std::vector<S> textEnts, markupEnts, extEnts, notations;
  struct Dflt { Qn q; bool decl; };
  std::map<S, std::vector<const Item*> > dflts;       // by element name
  std::map<S, int> uris;
  XGen(Rng& rr, const XOpts& oo) : r(rr), o(oo), budget(oo.size) {}
  template<class T> const T& pick(const std::vector<T>& v) { return v[r.below(v.size())]; }
  S pick(std::initializer_list<const char*> l) { return *(l.begin() + r.below(l.size())); }

  // ------------------------------------------------------------ choosing
  Piece t(const S& s) { Piece p; p.k = 't'; p.s = s; p.c = 0; return p; }
  Piece k(char c, unsigned cp = 0, const S& s = "") { Piece p; p.k = c; p.c = cp; p.s = s; return p; }
  S word() {
    S w = pick({"x", "ab", " ", "  ", "]", "]]", ">", "'", "\"", "yy ", " z", "1", ";", "-", "=", "a\xc3\xa9", "xmlns", "%"});
    if (!o.latin && r.chance(12)) w = pick({"\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xe4\xb8\xad", "\xef\xbf\xbd", "\xc2\x85"});
    return w;
  }
  Pieces text(bool attr, bool entityValue = false) {
    Pieces v; int n = r.chance(10) ? 0 : 1 + r.below(4); if (!attr && n == 0) n = 1;
    for (int i = 0; i < n; ++i) {
      int w = r.below(100);
      if (w < 55) { S s = word(); if (entityValue && (s == "%" || s == ">")) s = "pc"; v.push_back(t(s)); }
      else if (w < 65) v.push_back(k('n'));
      else if (w < 70) v.push_back(k('b'));
      else if (w < 88) {
        static const unsigned cs[] = {'<', '&', '>', '"', '\'', 'A', ' ', 0xe9, 0x20ac, 0x1f600, 10, 13, 9};
        unsigned c = cs[r.below(13)]; if (entityValue && (c == '<' || c == '&' || c == 13 || c == '>' || c == '"' || c == '\'' || c == 10 || c == 9)) c = 'B';
        v.push_back(k('c', c));
      }
      else if (!textEnts.empty()) v.push_back(k('e', 0, pick(textEnts)));
      else v.push_back(t("w"));
    }
    return v;
  }
  Pieces plain(const char* forbid) {                  // for comments, PIs and CDATA
    Pieces v; int n = r.below(4);
    for (int i = 0; i < n; ++i) { if (r.chance(15)) v.push_back(k('n')); else if (r.chance(10)) v.push_back(k('b')); else { S s = word(); if (s.find_first_of(forbid) == S::npos) v.push_back(t(s)); } }
    if (r.chance(15)) v.push_back(t(pick({"<", "&", "&lt;", "<a>", "&#65;"})));
    return v;
  }
  XN node(const S& kk) { XN n(new XNode); n->k = kk; return n; }
  XN misc() {
    if (r.chance(50)) { XN n = node("cm"); n->v = plain("-"); return n; }
    XN n = node("pi"); n->s = pick({"t", "pi", "xml-style", "a\xc3\xa9"}); Pieces v = plain("?");
    while (!v.empty() && (v[0].k != 't' || v[0].s[0] == ' ')) v.erase(v.begin());
    n->v = v; return n;
  }
  S local() { return pick({"a", "b", "c", "d", "a\xc3\xa9", "xmlnsy", "a-b"}); }
  typedef std::map<S, S> Scope;
  Qn elName(const Scope& sc) {
    Qn q; q.l = local();
    if (!o.ns) { if (r.chance(10)) q.p = "p"; if (q.p.size() && sc.find("p") == sc.end()) q.p = ""; return q; }
    std::vector<S> ps(1, ""); for (auto& p : sc) if (p.first.size() && p.first != "xml") ps.push_back(p.first);
    q.p = pick(ps); return q;
  }
  const Item* declared(const Qn& el, const Qn& at) { auto i = dflts.find(el.str()); if (i != dflts.end()) for (auto x : i->second) if (x->q.str() == at.str()) return x; return 0; }
  static S dpfx(const Qn& q) { return q.p == "xmlns" ? q.l : ""; }
  static bool isDecl(const Qn& q) { return q.p == "xmlns" || (q.p.empty() && q.l == "xmlns"); }
  S uriOf(const Pieces& v) { S s; for (auto& p : v) s += p.s; return s; }
  XN element(const Scope& outer, int depth, bool inEntity) {
    --budget;
    XN n = node("el"); Scope sc = outer; std::set<S> have;
    std::vector<XAttr> decls;
    if (o.ns) {
      int nd = r.chance(35) ? 1 + r.below(2) : 0;
      for (int i = 0; i < nd; ++i) {
        XAttr a; S p = pick({"", "p", "q", "r"}); if (r.chance(5)) p = "xml"; a.q.p = p.empty() ? "" : "xmlns"; a.q.l = p.empty() ? "xmlns" : p;
        if (!have.insert(a.q.str()).second) continue;
        S u = pick({"u", "v", "w", "http://x/y"}); if (p.empty() && r.chance(25)) u = ""; if (p == "xml") u = "http://www.w3.org/XML/1998/namespace";
        if (u.size()) a.v.push_back(t(u)); sc[p] = u; decls.push_back(a);
      }
    }
    // the name fixes which defaults apply, and they may declare prefixes
    for (int tries = 0; ; ++tries) {
      n->q = elName(sc); Scope s2 = sc; bool ok = true;
      auto f = dflts.find(n->q.str());
      if (f != dflts.end()) for (auto x : f->second) if (x->dflt && isDecl(x->q) && !have.count(x->q.str())) s2[dpfx(x->q)] = uriOf(x->v);
      if (n->q.p.size() && s2.find(n->q.p) == s2.end()) ok = false;
      if (ok) { sc = s2; break; }
    }
    n->at = decls;
    std::set<S> expanded;
    auto ex = [&](const Qn& q) { return q.p.empty() ? q.l : (q.p == "xml" ? S("XML") : sc[q.p]) + "|" + q.l; };
    auto f = dflts.find(n->q.str());
    if (f != dflts.end()) for (auto x : f->second) if (x->dflt && !isDecl(x->q)) expanded.insert(ex(x->q));
    int na = r.below(4);
    for (int i = 0; i < na; ++i) {
      XAttr a; a.q.l = pick({"x", "y", "z", "xmlnsfoo", "xmlns-x", "d", "k", "a\xc3\xa9"});
      if (r.chance(30)) { std::vector<S> ps; for (auto& p : sc) if (p.first.size()) ps.push_back(p.first); if (!ps.empty()) a.q.p = pick(ps); }
      if (a.q.p == "xml") a.q.l = pick({"lang", "base", "foo"});
      if (!have.insert(a.q.str()).second) continue;
      const Item* it = declared(n->q, a.q); bool isD = it && it->dflt;
      if (!isD && !expanded.insert(ex(a.q)).second) continue;
      if (it && it->tok) { a.v.push_back(t(pick({"a", " a ", "b", "  b"}))); }
      else a.v = text(true);
      n->at.push_back(a);
    }
    for (size_t i = n->at.size(); i > 1; --i) std::swap(n->at[i - 1], n->at[r.below(i)]);
    if (depth > 0) n->ch = content(sc, depth - 1, inEntity);
    return n;
  }
  std::vector<XN> content(const Scope& sc, int depth, bool inEntity) {
    std::vector<XN> v; int n = r.below(5);
    for (int i = 0; i < n && budget > 0; ++i) {
      int w = r.below(100);
      if (w < 40 && depth >= 0) v.push_back(element(sc, depth, inEntity));
      else if (w < 70) { XN x = node("tx"); x->v = text(false); v.push_back(x); }
      else if (w < 80) { XN x = node("cd"); x->v = plain("]"); v.push_back(x); }
      else if (w < 92) v.push_back(misc());
      else if (!markupEnts.empty() && !inEntity) { XN x = node("er"); x->s = pick(markupEnts); v.push_back(x); }
      else if (!extEnts.empty() && !inEntity) { XN x = node("er"); x->s = pick(extEnts); v.push_back(x); }
    }
    return v;
  }
  Model model(int depth) {
    Model m; m.q = pick({"", "", "?", "*", "+"});
    if (depth == 0 || r.chance(45)) { m.t = "n"; m.n = pick({"a", "b", "c", "p:a"}); return m; }
    m.t = pick({"seq", "alt"}); int n = m.t == "alt" ? 2 + r.below(2) : 1 + r.below(3);
    for (int i = 0; i < n; ++i) m.ch.push_back(model(depth - 1));
    return m;
  }
  void subset() {
    std::set<S> seen; int n = r.below(8);
    d.items.reserve(16);
    for (int i = 0; i < n; ++i) {
      Item it; int w = r.below(100);
      if (w < 20) { it.k = "ent"; it.n = "e" + num((long long)i); it.v = text(true, true); }
      else if (w < 30) { it.k = "ment"; it.n = "m" + num((long long)i); Scope none; bool ns = o.ns; o.ns = false; std::map<S, std::vector<const Item*> > keep; keep.swap(dflts); auto tk = textEnts; textEnts.clear();
        it.ch = content(none, 1, true); keep.swap(dflts); textEnts = tk; o.ns = ns;
        fixEntity(it.ch); if (it.ch.empty()) { XN x = node("tx"); x->v.push_back(t("me")); it.ch.push_back(x); } }
      else if (w < 38) { it.k = "not"; it.n = "n" + num((long long)i); ids(it, true); notations.push_back(it.n); }
      else if (w < 44) { if (notations.empty()) continue; it.k = "uent"; it.n = "u" + num((long long)i); ids(it, false); it.nota = pick(notations); }
      else if (w < 50 && o.ext) { it.k = "xent"; it.n = "x" + num((long long)i); ids(it, false); it.sys = "ext" + num((long long)i); Scope none; bool ns = o.ns; o.ns = false; std::map<S, std::vector<const Item*> > keep; keep.swap(dflts); auto tk = textEnts; textEnts.clear();
        it.ch = content(none, 1, true); keep.swap(dflts); textEnts = tk; o.ns = ns; fixEntity(it.ch); }
      else if (w < 64) { it.k = "eld"; it.el.l = local(); if (!seen.insert("E" + it.el.str()).second) continue;
        int c = r.below(4); if (c == 0) it.m.t = "EMPTY"; else if (c == 1) it.m.t = "ANY"; else if (c == 2) { it.m.t = "mixed"; int kk = r.below(3); std::set<S> s; for (int j = 0; j < kk; ++j) { Model x; x.t = "n"; x.n = pick({"a", "b", "c"}); if (s.insert(x.n).second) it.m.ch.push_back(x); } if (!it.m.ch.empty()) it.m.q = "*"; }
        else { do it.m = model(2); while (it.m.t == "n"); } }
      else if (w < 88) {
        it.k = "atd"; it.el.l = local(); bool ns = o.ns && r.chance(20);
        if (ns) { S p = pick({"", "p", "q"}); it.q.p = p.empty() ? "" : "xmlns"; it.q.l = p.empty() ? "xmlns" : p; }
        else if (o.ns && r.chance(12)) { it.q.p = "xml"; it.q.l = pick({"lang", "base", "foo"}); }
        else it.q.l = pick({"x", "y", "d", "xmlnsfoo", "k"});
        if (!seen.insert("A" + it.el.str() + " " + it.q.str()).second) continue;
        int c = ns ? 0 : r.below(4);
        if (c <= 1) it.type = "CDATA"; else if (c == 2) { it.type = pick({"NMTOKEN", "NMTOKENS", "ID", "IDREF"}); it.tok = true; } else { it.type = "(a|b)"; it.tok = true; }
        int m = ns ? 2 + r.below(2) : r.below(4); if (it.type == "ID") m = r.below(2);
        it.mode = m == 0 ? "#IMPLIED" : m == 1 ? "#REQUIRED" : m == 2 ? "" : "#FIXED"; it.dflt = m >= 2;
        if (it.dflt) { if (ns) { S u = pick({"u", "v"}); it.v.push_back(t(u)); } else if (it.tok) it.v.push_back(t(pick({"a", "b"}))); else it.v = text(true); }
      }
      else { it.k = "misc"; it.misc = misc(); }
      d.items.push_back(it);
      Item* p = &d.items.back();
      if (it.k == "ent") textEnts.push_back(it.n);
      if (it.k == "ment") markupEnts.push_back(it.n);
      if (it.k == "xent") extEnts.push_back(it.n);
      if (it.k == "atd") dflts[it.el.str()].push_back(p);
    }
  }
  void fixEntity(std::vector<XN>& v) {                // what an entity holds depends on nothing around it, and has no references of its own
    for (auto& n : v) {
      Pieces ps; for (auto& p : n->v) { if (p.k == 'c') ps.push_back(t("c")); else if (p.k == 't' && (p.s == "%" || p.s.find_first_of("\"&<") != S::npos || p.s[0] == ']')) ps.push_back(t("s")); else if (p.k == 'n' || p.k == 'b') ps.push_back(t(" ")); else ps.push_back(p); } n->v = ps;
      for (auto& a : n->at) { Pieces q; for (auto& p : a.v) if (p.k == 't' && p.s.find_first_of("%\"'&<") == S::npos) q.push_back(p); a.v = q; }
      if (n->k == "pi") while (!n->v.empty() && n->v[0].s[0] == ' ') n->v.erase(n->v.begin());
      fixEntity(n->ch);
    }
  }
  void ids(Item& it, bool notation) {
    int w = r.below(3); it.sys = "s" + num((long long)r.below(4)); it.pub = "";
    if (w == 0) it.pub = "-//p//" + num((long long)r.below(3));
    if (notation && w == 1) { it.pub = "pp"; it.sys = ""; }
  }
  // ------------------------------------------------------------ writing
  void nl() { bool cr = !out.empty() && out[out.size() - 1] == '\r'; int w = r.below(3); out += w == 0 && !cr ? "\n" : w == 1 ? "\r" : "\r\n"; if (out[out.size() - 1] == '\r') out += ""; }
  void charref(unsigned c) {
    if (c == '<' && r.chance(60)) out += "&lt;"; else if (c == '&' && r.chance(60)) out += "&amp;"; else if (c == '>' && r.chance(60)) out += "&gt;"; else if (c == '"' && r.chance(60)) out += "&quot;"; else if (c == '\'' && r.chance(60)) out += "&apos;";
    else { char b[24]; snprintf(b, sizeof b, r.chance(50) ? "&#%u;" : r.chance(50) ? "&#x%x;" : "&#x0%X;", c); out += b; }
  }
  void pieces(const Pieces& ps, char quote, bool raw) {
    for (auto& p : ps) {
      if (p.k == 't') for (char c : p.s) {
        if (c == quote && quote) { out += c == '"' ? "&#34;" : "&#39;"; continue; }
        if (c == '>' && !raw && out.size() > 1 && out.compare(out.size() - 2, 2, "]]") == 0) { out += "&gt;"; continue; }
        out += c;
      }
      else if (p.k == 'n') { if (plainNl) out += "\n"; else nl(); }
      else if (p.k == 'b') out += "\t";
      else if (p.k == 'c') charref(p.c);
      else out += "&" + p.s + ";";
    }
  }
  bool plainNl = false;
  S ws() { return r.chance(80) ? " " : r.chance(50) ? "\n" : " \t"; }
  S ows() { return r.chance(85) ? "" : ws(); }
  void write(const std::vector<XN>& v) { for (auto& n : v) write(n); }
  void write(const XN& n) {
    if (stop) return;
    if (n->k == "el") {
      out += "<" + n->q.str();
      for (auto& a : n->at) { out += ws() + a.q.str() + ows() + "=" + ows(); char q = forceQuote ? forceQuote : r.chance(60) ? '"' : '\''; out += q; pieces(a.v, q, false); out += q; }
      out += ows();
      if (n->ch.empty() && r.chance(60)) { out += "/>"; return; }
      out += ">"; write(n->ch); if (stop) return; out += "</" + n->q.str() + ows() + ">";
    }
    else if (n->k == "tx") pieces(n->v, 0, false);
    else if (n->k == "cd") { out += "<![CDATA["; pieces(n->v, 0, true); out += "]]>"; }
    else if (n->k == "cm") { out += "<!--"; pieces(n->v, 0, true); out += "-->"; }
    else if (n->k == "pi") { out += "<?" + n->s; if (!n->v.empty()) { out += ws(); pieces(n->v, 0, true); } out += "?>"; }
    else if (n->k == "er") out += "&" + n->s + ";";
    else if (n->k == "bad") {
      const S& b = n->s;
      if (b == "lt") out += "< a"; else if (b == "undent" && d.sys.empty()) out += "&nope;"; else if (b == "endtag" || b == "undent") out += "</zzz>"; else if (b == "amp") out += "& x"; else if (b == "dup") out += "<b f='1' f='2'/>";
      else if (b == "noquote") out += "<b f=1/>"; else if (b == "ctl") out += "\x01"; else if (b == "comment") out += "<!-- a -- b -->"; else if (b == "xmldecl") out += "<?xml version='1.0'?>"; else if (b == "ltattr") out += "<b f='<'/>"; else if (b == "charref") out += "&#0;"; else if (b == "eof") stop = true; else if (b == "cmeof") { out += "<!-- "; stop = true; } else if (b == "tageof") { out += "<b "; stop = true; }
      else if (b == "root") out += "<again/>"; else if (b == "text") out += "text"; else if (b == "noend") out += "</";
    }
  }
  bool stop = false; char forceQuote = 0;
  void writeModel(const Model& m) {
    if (m.t == "EMPTY" || m.t == "ANY") { out += m.t; return; }
    if (m.t == "mixed") { out += "(" + ows() + "#PCDATA"; for (auto& c : m.ch) out += ows() + "|" + ows() + c.n; out += ows() + ")" + m.q; return; }
    if (m.t == "n") { out += m.n + m.q; return; }
    out += "(" + ows(); for (size_t i = 0; i < m.ch.size(); ++i) { if (i) out += ows() + (m.t == "seq" ? "," : "|") + ows(); writeModel(m.ch[i]); } out += ows() + ")" + m.q;
  }
  S ext(const S& pub, const S& sys) { S q = r.chance(50) ? "\"" : "'"; S s = q + sys + q; if (pub.empty()) return "SYSTEM " + s; return "PUBLIC \"" + pub + "\"" + (sys.empty() ? "" : " " + s); }
  void write(Item& i) {
    if (i.k == "misc") { write(i.misc); return; }
    if (i.k == "ent") { out += "<!ENTITY " + i.n + ws(); char q = r.chance(50) ? '"' : '\''; out += q; bool keep = plainNl; plainNl = true; S save = out; pieces(i.v, q, false); plainNl = keep; out += q; out += ows() + ">"; }
    else if (i.k == "ment") { S keep = out; out = ""; forceQuote = '\''; write(i.ch); forceQuote = 0; i.raw = out; out = keep + "<!ENTITY " + i.n + " \"" + i.raw + "\">"; }
    else if (i.k == "xent") { S keep = out; out = ""; write(i.ch); d.external[i.sys] = out; out = keep + "<!ENTITY " + i.n + " " + ext(i.pub, i.sys) + ">"; }
    else if (i.k == "uent") out += "<!ENTITY " + i.n + " " + ext(i.pub, i.sys) + " NDATA " + i.nota + ">";
    else if (i.k == "not") out += "<!NOTATION " + i.n + " " + ext(i.pub, i.sys) + ows() + ">";
    else if (i.k == "eld") { out += "<!ELEMENT " + i.el.str() + ws(); writeModel(i.m); out += ows() + ">"; }
    else if (i.k == "atd") {
      S ty = i.type == "(a|b)" ? "(" + ows() + "a" + ows() + "|" + ows() + "b" + ows() + ")" : i.type;
      out += "<!ATTLIST " + i.el.str() + ws() + i.q.str() + ws() + ty + ws() + i.mode; if (i.mode.size() && i.dflt) out += ws();
      if (i.dflt) { char q = r.chance(50) ? '"' : '\''; out += q; pieces(i.v, q, false); out += q; } out += ">";
    }
  }
  int countEl(const XN& n) { int c = n->k == "el" ? 1 : 0; for (auto& x : n->ch) c += countEl(x); return c; }
  void plantBad() {
    if (r.chance(15)) { XN b = node("bad"); b->s = pick({"root", "text", "undent", "lt", "endtag"}); d.post.push_back(b); return; }
    int at = r.below(countEl(d.root)); XN e; std::vector<XN> st(1, d.root);
    while (!st.empty()) { XN n = st.back(); st.pop_back(); if (n->k == "el") { if (at-- == 0) e = n; for (auto& x : n->ch) st.push_back(x); } }
    XN b = node("bad"); b->s = pick({"lt", "undent", "endtag", "amp", "dup", "noquote", "ctl", "comment", "xmldecl", "ltattr", "charref", "eof", "cmeof", "tageof", "noend"});
    e->ch.insert(e->ch.begin() + r.below(e->ch.size() + 1), b);
  }
  XDoc& make() {
    if (o.dtd) {
      d.hasDtd = true; subset();
      if (r.chance(30) && o.extId) { d.sys = "dtd"; d.external["dtd"] = ""; if (r.chance(50)) d.pub = "-//dtd"; }
    }
    Scope sc; sc["xml"] = "XML";
    for (int i = r.chance(30) ? 2 : 0; i > 0; --i) d.pre.push_back(misc());
    for (int i = r.chance(20) ? 1 : 0; i > 0; --i) d.mid.push_back(misc());
    d.root = element(sc, 4, false);
    d.name = d.root->q.str();
    for (int i = r.chance(30) ? 2 : 0; i > 0; --i) d.post.push_back(misc());
    if (o.bad) plantBad();
    if (!o.encoding.empty()) out = "<?xml version=\"1.0\" encoding=\"" + o.encoding + "\"?>"; else if (r.chance(40)) out = "<?xml version='1.0'?>";
    for (auto& n : d.pre) { write(n); if (r.chance(30)) out += "\n"; }
    if (d.hasDtd) {
      out += "<!DOCTYPE " + d.name; if (d.sys.size()) out += " " + ext(d.pub, d.sys);
      out += ows(); if (!d.items.empty() || d.sys.empty()) { out += "["; for (auto& i : d.items) { out += ows(); write(i); } out += "]"; } out += ows() + ">";
    }
    for (auto& n : d.mid) { write(n); if (r.chance(30)) out += "\n"; }
    mark = out.size();
    write(d.root);
    for (auto& n : d.post) { if (r.chance(30) && !stop) out += "\n"; write(n); }
    d.markup = out;
    return d;
  }
  size_t mark;
};
inline S encode(const S& u, const S& enc) {
  if (enc != "ISO-8859-1" && enc != "UTF-16") return u;
  S r; bool be = u.size() % 2; auto put = [&](unsigned c) { if (be) { r += (char)(c >> 8); r += (char)c; } else { r += (char)c; r += (char)(c >> 8); } };
  if (enc == "UTF-16") put(0xfeff);
  for (size_t i = 0; i < u.size();) {
    unsigned char c = u[i]; int n = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : c >= 0xc0 ? 1 : 0; unsigned v = n == 0 ? c : c & (n == 3 ? 7 : n == 2 ? 15 : 31);
    for (int k = 1; k <= n; ++k) v = (v << 6) | (u[i + k] & 0x3f);
    i += n + 1;
    if (enc == "ISO-8859-1") r += (char)v; else if (v < 0x10000) put(v); else { v -= 0x10000; put(0xd800 | v >> 10); put(0xdc00 | (v & 0x3ff)); }
  }
  return r;
}
// gives out a few characters at a time
struct Dribble : std::streambuf {
  S s; size_t at; Rng r; char b[64];
  Dribble(const S& t, int seed) : s(t), at(0), r(seed) {}
  int_type underflow() { if (at == s.size()) return traits_type::eof(); size_t n = std::min<size_t>(1 + r.below(60), s.size() - at); memcpy(b, s.data() + at, n); at += n; setg(b, b, b + n); return traits_type::to_int_type(b[0]); }
};
struct DribbleStream : std::istream { Dribble d; DribbleStream(const S& t, int seed) : std::istream(0), d(t, seed) { rdbuf(&d); } };

}
#endif
