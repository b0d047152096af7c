#ifndef VF_XPATH_GEN_HPP
#define VF_XPATH_GEN_HPP
// Random XPath expressions and patterns: an abstract tree, written both as JSON (for the
// specification) and as XPath text (for the library), with random abbreviation, brackets and spacing.
#include "common.hpp"
#include <memory>
namespace vf {
typedef std::string S;
struct Ex;
typedef std::shared_ptr<Ex> E;
struct St {                       // one step
  S ax; std::vector<S> nt;        // node test: kind, then arguments as in the specification
  S ntText;                       // the node test as written
  std::vector<E> pr;
};
struct Ex {
  S k;                            // num lit var neg path filt fn bin
  S a;                            // number text / literal / variable name / function / operator
  S nk; int n;                    // number kind and value in sixteenths
  bool abs;
  std::vector<E> sub;             // operands, arguments, or the primary of a filter expression
  std::vector<E> pr;              // predicates of a filter expression
  std::vector<St> st;
  Ex() : n(0), abs(false) {}
};
inline S join(const std::vector<S>& v) { S r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += v[i]; } return "[" + r + "]"; }
S json(const E& e);
inline S json(const std::vector<E>& v) { std::vector<S> p; for (auto& e : v) p.push_back(json(e)); return join(p); }
inline S json(const std::vector<St>& v) {
  std::vector<S> p;
  for (auto& s : v) p.push_back("{\"ax\":" + jstr(s.ax) + ",\"nt\":" + jstrs(s.nt) + ",\"pr\":" + json(s.pr) + "}");
  return join(p);
}
inline S json(const E& e) {
  S q = "[" + jstr(e->k);
  if (e->k == "num") q += "," + jstr(e->nk) + "," + num(e->n);
  else if (e->k == "lit") q += "," + jstr(e->nk);
  else if (e->k == "var") q += "," + jstr(e->a);
  else if (e->k == "neg") q += "," + json(e->sub[0]);
  else if (e->k == "path") q += "," + S(e->abs ? "true" : "false") + "," + json(e->st);
  else if (e->k == "filt") q += "," + json(e->sub[0]) + "," + json(e->pr) + "," + json(e->st);
  else if (e->k == "fn") q += "," + jstr(e->a) + "," + json(e->sub);
  else q += "," + jstr(e->a) + "," + json(e->sub[0]) + "," + json(e->sub[1]);
  return q + "]";
}
// ---------------------------------------------------------------- text
struct Printer {
  Rng* r;                          // null: plain, abbreviated where possible
  bool pattern;
  std::vector<S> t;
  Printer(Rng* rr, bool pat = false) : r(rr), pattern(pat) {}
  bool coin(int pct) { return r && r->chance(pct); }
  void p(const S& s) { t.push_back(s); }
  static int prec(const S& op) {
    if (op == "or") return 1;
    if (op == "and") return 2;
    if (op == "=" || op == "!=") return 3;
    if (op == "<" || op == "<=" || op == ">" || op == ">=") return 4;
    if (op == "+" || op == "-") return 5;
    if (op == "*" || op == "div" || op == "mod") return 6;
    return 8;                      // |
  }
  void preds(const std::vector<E>& v) { for (auto& e : v) { p("["); expr(e, 0); p("]"); } }
  bool dos(const St& s) { return s.ax == "descendant-or-self" && s.nt[0] == "node" && s.pr.empty(); }
  void step(const St& s) {
    bool ab = !coin(30);
    if (!pattern && ab && s.pr.empty() && s.nt[0] == "node" && s.ax == "self") { p("."); return; }
    if (!pattern && ab && s.pr.empty() && s.nt[0] == "node" && s.ax == "parent") { p(".."); return; }
    if (s.ax == "child" && ab) {}
    else if (s.ax == "attribute" && ab) p("@");
    else { p(s.ax); p("::"); }
    if (s.nt[0] == "text" || s.nt[0] == "comment" || s.nt[0] == "node") { p(s.nt[0]); p("("); p(")"); }
    else if (s.nt[0] == "pi") { p("processing-instruction"); p("("); if (s.nt[1] != "") p("'" + s.nt[1] + "'"); p(")"); }
    else p(s.ntText);
    preds(s.pr);
  }
  void steps(const std::vector<St>& v, bool lead) {      // lead: something comes before
    for (size_t i = 0; i < v.size(); ++i) {
      bool here = lead || i > 0;
      if (here && dos(v[i]) && i + 1 < v.size() && (pattern || !coin(20))) { p("//"); ++i; step(v[i]); }
      else { if (here) p("/"); step(v[i]); }
    }
  }
  void path(const E& e) {
    if (e->abs && e->st.empty()) p("/");
    else steps(e->st, e->abs);
  }
  void expr(const E& e, int lv) {
    if (coin(6)) { p("("); expr(e, 0); p(")"); return; }
    if (e->k == "num" || e->k == "lit") p(e->a);
    else if (e->k == "var") p("$" + e->a);
    else if (e->k == "neg") {
      if (lv > 7) p("(");
      p("-"); expr(e->sub[0], 7);
      if (lv > 7) p(")");
    } else if (e->k == "path") {
      bool br = e->abs && e->st.empty() && lv > 0;
      if (br) p("(");
      path(e);
      if (br) p(")");
    } else if (e->k == "filt") {
      const E& s = e->sub[0];
      bool prim = s->k == "var" || s->k == "lit" || s->k == "num" || s->k == "fn";
      if (!prim) p("(");
      expr(s, prim ? 9 : 0);
      if (!prim) p(")");
      preds(e->pr); steps(e->st, true);
    } else if (e->k == "fn") {
      p(e->a); p("(");
      for (size_t i = 0; i < e->sub.size(); ++i) { if (i) p(","); expr(e->sub[i], 0); }
      p(")");
    } else {
      int pr = prec(e->a);
      if (lv > pr) p("(");
      expr(e->sub[0], pr); p(e->a); expr(e->sub[1], pr + 1);
      if (lv > pr) p(")");
    }
  }
  static bool namey(char c) { return isalnum((unsigned char)c) || c == '_' || c == '-' || c == '.'; }
  S text(bool spaces) {
    S o;
    if (spaces && coin(5)) o += " ";
    for (size_t i = 0; i < t.size(); ++i) {
      if (i) {
        char a = t[i - 1][t[i - 1].size() - 1], b = t[i][0];
        bool need = (namey(a) && namey(b)) || (a == '*' && (isalnum((unsigned char)b) || b == '*')) || (a == '.' && b == '.');
        // a name directly after an operator-looking token is fine; "a*b" is fine too
        if (need || (spaces && coin(10))) o += !r || coin(80) ? " " : coin(50) ? "\n" : "  \t";
      }
      o += t[i];
    }
    if (spaces && coin(5)) o += " ";
    return o;
  }
};
inline S text(const E& e, Rng* r) { Printer p(r); p.expr(e, 0); return p.text(true); }
inline S pattern(const std::vector<E>& alts, Rng* r) {
  S o;
  for (size_t i = 0; i < alts.size(); ++i) {
    Printer p(r, true);
    p.path(alts[i]);
    if (i) o += r && r->chance(50) ? " | " : "|";
    o += p.text(true);
  }
  return o;
}
// ---------------------------------------------------------------- building
inline E mk(const S& k, const S& a = S()) { E e(new Ex); e->k = k; e->a = a; return e; }
inline E fn(const S& f, const std::vector<E>& args = std::vector<E>()) { E e = mk("fn", f); e->sub = args; return e; }
inline E bin(const S& op, const E& l, const E& r) { E e = mk("bin", op); e->sub = {l, r}; return e; }
inline E numlit(int sixteenths) {       // non-negative
  char b[40];
  E e = mk("num");
  e->nk = "fin"; e->n = sixteenths;
  if (sixteenths % 16 == 0) snprintf(b, sizeof b, "%d", sixteenths / 16);
  else snprintf(b, sizeof b, "%.10g", sixteenths / 16.0);
  e->a = b;
  return e;
}
inline E strlit(const S& s) {
  E e = mk("lit");
  e->a = s.find('\'') == S::npos ? "'" + s + "'" : "\"" + s + "\"";
  e->nk = s;
  return e;
}
struct Gen {
  Rng& r;
  std::vector<S> names;                                   // unprefixed names worth testing for
  std::vector<std::pair<S, S> > prefixes;                 // prefix, uri
  std::vector<S> strings, targets;
  std::vector<std::pair<S, char> > vars;                  // name, type (N S B X)
  bool noAbs, noNs, noPos;                                // no absolute paths / namespace axis / position() or last()
  std::vector<E> calls;                                   // node-set valued calls worth making (XSLT's current() and key())
  explicit Gen(Rng& rr) : r(rr), noAbs(false), noNs(false), noPos(false) {}
  template <class T> const T& pick(const std::vector<T>& v) { return v[r.below((int)v.size())]; }
  void test(St& s) {
    int k = r.below(100);
    if (s.ax == "attribute" && k >= 60 && r.chance(70)) k = r.below(60);
    if (k < 30) { s.nt = {"name", "", pick(names)}; s.ntText = s.nt[2]; }
    else if (k < 50) { s.nt = {"star"}; s.ntText = "*"; }
    else if (k < 58) { auto p = pick(prefixes); s.nt = {"name", p.second, pick(names)}; s.ntText = p.first + ":" + s.nt[2]; }
    else if (k < 63) { auto p = pick(prefixes); s.nt = {"nsstar", p.second}; s.ntText = p.first + ":*"; }
    else if (k < 83) s.nt = {"node"};
    else if (k < 92) s.nt = {"text"};
    else if (k < 96) s.nt = {"comment"};
    else s.nt = {"pi", r.chance(50) ? S() : pick(targets)};
  }
  St step(int d) {
    static const char* AX[] = {"child", "child", "child", "descendant", "descendant-or-self", "attribute", "attribute", "parent", "parent", "ancestor", "ancestor-or-self", "self", "self",
                               "following", "following-sibling", "preceding", "preceding-sibling", "namespace"};
    St s;
    do s.ax = AX[r.below(18)]; while (noNs && s.ax == "namespace");
    test(s);
    if (s.ax == "namespace" && s.nt[0] == "name") { s.nt = {"name", "", pick(prefixes).first}; s.ntText = s.nt[2]; }
    if ((s.ax == "self" || s.ax == "parent") && r.chance(50)) { s.nt = {"node"}; return s; }
    if (s.ax != "namespace") predicates(s.pr, d);
    return s;
  }
  void predicates(std::vector<E>& v, int d) {
    int k = d <= 0 ? 0 : r.below(100);
    int c = k < 62 ? 0 : k < 90 ? 1 : 2;
    for (int i = 0; i < c; ++i) v.push_back(predicate(d - 1));
  }
  // position() and last() somewhere inside, next to other functions
  E count(int d) {
    switch (r.below(6)) {
      case 0: return fn("string-length", {strlit(r.chance(50) ? "ab" : "a")});
      case 1: return fn("count", {path(d - 1)});
      case 2: return fn("last");
      case 3: return fn(r.chance(50) ? "floor" : "round", {bin("div", fn("last"), numlit(32))});
      case 4: return fn("number", {strlit("2")});
      default: return numlit(16 * (1 + r.below(3)));
    }
  }
  E positional(int d) {
    E a = fn("position"), b = count(d);
    if (r.chance(20)) a = bin("mod", a, numlit(32));
    if (r.chance(20)) b = bin(r.chance(50) ? "+" : "-", b, r.chance(50) ? numlit(16) : count(d));
    if (r.chance(40)) std::swap(a, b);
    E e = bin(r.chance(60) ? "=" : r.chance(50) ? "<" : "!=", a, b);
    switch (r.below(6)) {
      case 0: return fn("not", {e});
      case 1: return fn("boolean", {e});
      case 2: return r.chance(50) ? bin("and", e, boolean(d - 1)) : bin("or", boolean(d - 1), e);
      default: return e;
    }
  }
  E predicate(int d) {
    if (noPos) return d > 0 && r.chance(70) ? boolean(d) : nodes(d);
    switch (r.below(10)) {
      case 0: case 1: case 2: return numlit(16 * (1 + r.below(3)));
      case 3: return fn("last");
      case 4: if (r.chance(45)) return positional(d); return bin(r.chance(50) ? "=" : r.chance(50) ? "<" : ">=", fn("position"), r.chance(60) ? numlit(16 * (1 + r.below(3))) : fn("last"));
      case 5: return bin("-", fn("last"), numlit(16));
      case 6: return nodes(d);
      case 7: return r.chance(50) ? number(d) : string(d);
      default: return boolean(d);
    }
  }
  void steps(std::vector<St>& v, int c, int d) {
    for (int i = 0; i < c; ++i) {
      if (r.chance(12)) { St s; s.ax = "descendant-or-self"; s.nt = {"node"}; v.push_back(s); }
      v.push_back(step(d));
    }
  }
  E path(int d) {
    E e = mk("path");
    e->abs = !noAbs && r.chance(25);
    steps(e->st, e->abs && r.chance(15) ? 0 : 1 + r.below(3), d);
    return e;
  }
  E nodes(int d) {
    int k = r.below(100);
    if (!calls.empty() && r.chance(15)) {
      E c = pick(calls);
      if (r.chance(50)) return c;
      E e = mk("filt");
      e->sub = {c};
      predicates(e->pr, d);
      if (e->pr.empty() || r.chance(60)) steps(e->st, 1, d - 1);
      return e;
    }
    if (d <= 0 || k < 70) return path(d);
    if (k < 82) return bin("|", nodes(d - 1), nodes(d - 1));
    if (k < 88) { for (auto& v : vars) if (v.second == 'X') return mk("var", v.first); return path(d); }
    E e = mk("filt");
    e->sub = {nodes(d - 1)};
    if (!noAbs && r.chance(15)) { E top = mk("path"); top->abs = true; e->sub = {top}; }
    predicates(e->pr, d);
    if (e->pr.empty() || r.chance(40)) steps(e->st, 1 + r.below(2), d - 1);
    return e;
  }
  E var(char t) {
    std::vector<S> c;
    for (auto& v : vars) if (v.second == t) c.push_back(v.first);
    if (c.empty()) return E();
    return mk("var", pick(c));
  }
  E any(int d) {
    switch (r.below(4)) { case 0: return number(d); case 1: return string(d); case 2: return boolean(d); default: return nodes(d); }
  }
  E strarg(int d) { return r.chance(65) ? string(d) : any(d); }
  E numarg(int d) { return r.chance(65) ? number(d) : any(d); }
  E number(int d) {
    E v;
    if (d <= 0 || r.chance(25)) {
      switch (r.below(8)) {
        case 0: if (!noPos) return fn("position"); // fall through
        case 1: if (!noPos) return fn("last"); // fall through
        case 2: if ((v = var('N'))) return v; // fall through
        case 3: return numlit(r.below(100));
        case 4: return numlit(16 * r.below(1000));
        default: return numlit(16 * r.below(6));
      }
    }
    switch (r.below(12)) {
      case 0: case 1: case 2: case 3: {
        static const char* OP[] = {"+", "-", "*", "div", "mod"};
        return bin(OP[r.below(5)], numarg(d - 1), numarg(d - 1));
      }
      case 4: { E e = mk("neg"); e->sub = {numarg(d - 1)}; return e; }
      case 5: return fn("count", {nodes(d - 1)});
      case 6: return fn("sum", {nodes(d - 1)});
      case 7: { static const char* F[] = {"floor", "ceiling", "round"}; return fn(F[r.below(3)], {numarg(d - 1)}); }
      case 8: case 9: return r.chance(20) ? fn("number") : fn("number", {any(d - 1)});
      default: return r.chance(20) ? fn("string-length") : fn("string-length", {strarg(d - 1)});
    }
  }
  E string(int d) {
    E v;
    if (d <= 0 || r.chance(25)) {
      if (r.chance(30) && (v = var('S'))) return v;
      return strlit(pick(strings));
    }
    switch (r.below(11)) {
      case 0: return r.chance(20) ? fn("string") : fn("string", {any(d - 1)});
      case 1: { std::vector<E> a; int n = 2 + r.below(2); for (int i = 0; i < n; ++i) a.push_back(strarg(d - 1)); return fn("concat", a); }
      case 2: return fn("substring-before", {strarg(d - 1), strarg(d - 1)});
      case 3: return fn("substring-after", {strarg(d - 1), strarg(d - 1)});
      case 4: case 5: { std::vector<E> a = {strarg(d - 1), numarg(d - 1)}; if (r.chance(60)) a.push_back(numarg(d - 1)); return fn("substring", a); }
      case 6: return r.chance(20) ? fn("normalize-space") : fn("normalize-space", {strarg(d - 1)});
      case 7: return fn("translate", {strarg(d - 1), strarg(d - 1), strarg(d - 1)});
      default: {
        static const char* F[] = {"name", "local-name", "namespace-uri"};
        return r.chance(30) ? fn(F[r.below(3)]) : fn(F[r.below(3)], {nodes(d - 1)});
      }
    }
  }
  E boolean(int d) {
    E v;
    if (d <= 0 || r.chance(10)) {
      if (r.chance(30) && (v = var('B'))) return v;
      return fn(r.chance(50) ? "true" : "false");
    }
    int k = r.below(100);
    if (k < 55) {
      static const char* OP[] = {"=", "!=", "<", "<=", ">", ">="};
      return bin(OP[r.below(6)], any(d - 1), any(d - 1));
    }
    if (k < 75) return bin(r.chance(50) ? "and" : "or", any(d - 1), any(d - 1));
    if (k < 82) return fn("not", {any(d - 1)});
    if (k < 88) return fn("boolean", {any(d - 1)});
    return fn(r.chance(50) ? "starts-with" : "contains", {strarg(d - 1), strarg(d - 1)});
  }
  // ---- XSLT patterns: child and attribute steps joined by / or //
  E pat(int d) {
    E e = mk("path");
    e->abs = r.chance(25);
    int c = e->abs && r.chance(25) ? 0 : 1 + (r.chance(45) ? 1 + r.below(2) : 0);
    for (int i = 0; i < c; ++i) {
      if ((i > 0 || e->abs) && r.chance(25)) { St s; s.ax = "descendant-or-self"; s.nt = {"node"}; e->st.push_back(s); }
      St s;
      s.ax = i + 1 == c && r.chance(25) ? "attribute" : "child";
      test(s);
      predicates(s.pr, d);
      e->st.push_back(s);
    }
    return e;
  }
};
}
#endif
