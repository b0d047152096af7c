#ifndef VF_XSLT_GEN_HPP
#define VF_XSLT_GEN_HPP
// Random stylesheets: every piece is made twice, as JSON for the specification and as XML for the library.
#include "xpath_gen.hpp"
#include <set>
#include <map>
namespace vf {
struct Piece { S j, x; };                         // JSON, XML
inline S xmlAttr(const S& s) {
  S o;
  for (char c : s) {
    if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '"') o += "&quot;";
    else if (c == '\n') o += "&#10;"; else if (c == '\t') o += "&#9;"; else if (c == '\r') o += "&#13;";
    else o += c;
  }
  return o;
}
inline S xmlText(const S& s) {
  S o;
  for (char c : s) { if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '\r') o += "&#13;"; else o += c; }
  return o;
}
struct Profile {                                  // what a run of the generator is about
  int mods, templates, named, globals, keys;      // how many, at most
  int wRule, wVar, wLoop, wTree;                  // weights of kinds of instruction
  int err;                                        // per cent of stylesheets allowed to fail
};
struct Scope {
  std::map<S, char> vars;                         // visible variables and their types
  std::set<S> locals;                             // those that must not be bound again
  std::map<S, S> ns;                              // prefixes in scope, "" for the default namespace
  int level;                                      // instructions only start templates of this level, going down, or of higher levels
  bool strict;                                    // only higher levels: the current node may have moved up
  bool rule;                                      // inside a template rule and not in for-each: apply-imports is allowed
  Scope() : level(0), strict(false), rule(false) {}
};
struct XsltGen {
  Rng& r;
  Profile p;
  Gen g;
  std::map<S, S> files;                           // module number -> text
  std::vector<S> modes;                           // clark names, level 2 * index
  std::vector<S> named;                           // clark names, level 2 * index + 1
  std::map<S, std::vector<S> > params;            // named template or mode -> parameters worth passing
  std::vector<S> keys;
  std::map<S, char> globals;
  std::vector<S> globalParams;
  bool mayFail;
  int budget;
  static const std::vector<S>& words() { static const std::vector<S> w = {"1", "2", "10", "ab", "a", "b", "-1.5", "x y", "B", " 3", "<&>", "--", "]]>", "?>", "a\nb", "]]", "]", ">", "]]>]]>b]]>"}; return w; }
  XsltGen(Rng& rr, const Profile& pp) : r(rr), p(pp), g(rr), mayFail(false), budget(0) {
    g.names = {"a", "b", "c", "k"};
    g.prefixes = {{"p", "u1"}, {"q", "u2"}};
    g.strings = {"", "a", "b", "1", "2", "10", "x", "ab", " "};
    g.targets = {"t", "u-1"};
    g.noNs = true;
  }
  // ---- names
  static S clark(const S& q) { size_t c = q.find(':'); if (c == S::npos) return q; return (q.substr(0, c) == "p" ? S("{u1}") : S("{u2}")) + q.substr(c + 1); }
  static S lexical(const S& c) { if (c == "" || c[0] != '{') return c; size_t e = c.find('}'); return (c.substr(1, e - 1) == "u1" ? S("p:") : S("q:")) + c.substr(e + 1); }
  static char typeOf(const S& v) { return v[0] == 'n' ? 'N' : v[0] == 'b' ? 'B' : v[0] == 'x' ? 'X' : 'S'; }
  static const std::vector<S>& varNames() { static const std::vector<S> v = {"n1", "n2", "s1", "s2", "b1", "x1", "x2", "r1", "r2"}; return v; }
  // ---- expressions
  void scope(const Scope& s, bool calls) {
    g.vars.clear();
    for (auto& v : s.vars) g.vars.push_back({v.first, v.second});
    g.calls.clear();
    if (!calls) return;
    g.calls.push_back(fn("current"));
    if (!keys.empty()) {
      S k = keys[r.below((int)keys.size())];
      E arg = r.chance(60) ? strlit(g.pick(g.strings)) : r.chance(50) ? g.string(1) : g.any(1);
      g.calls.push_back(fn("key", {strlit(k), arg}));
      g.calls.push_back(fn("key", {strlit(k), strlit(g.pick(g.strings))}));
    }
  }
  Piece ex(const E& e) { Piece q; q.j = json(e); q.x = text(e, r.chance(70) ? 0 : &r); return q; }
  Piece typed(const Scope& s, char t, int d) {
    scope(s, true);
    switch (t) {
      case 'N': if (r.chance(25)) return ex(r.chance(50) ? fn("position") : fn("last")); return ex(g.number(d));
      case 'B': return ex(g.boolean(d));
      case 'X': return ex(g.nodes(d));
      default: return ex(g.string(d));
    }
  }
  Piece value(const Scope& s, int d) {
    scope(s, true);
    if (!s.vars.empty() && r.chance(30)) { auto i = s.vars.begin(); std::advance(i, r.below((int)s.vars.size())); return ex(mk("var", i->first)); }
    int k = r.below(100);
    if (k < 12) return ex(fn("position"));
    if (k < 20) return ex(fn("last"));
    if (k < 34) { E e = mk("path"); St st; st.ax = "self"; st.nt = {"node"}; e->st.push_back(st); return ex(e); }
    if (k < 44) return ex(fn(r.chance(70) ? "name" : "local-name", {fn("current")}));
    if (k < 52) { E e = mk("path"); St st; st.ax = "attribute"; st.nt = {"name", "", g.pick(g.names)}; st.ntText = st.nt[2]; e->st.push_back(st); return ex(e); }
    return ex(g.any(d));
  }
  E down(int d) {                                 // selects strictly below the current node
    E e = mk("path");
    int n = 1 + (r.chance(20) ? 1 : 0);
    for (int i = 0; i < n; ++i) {
      St st;
      int k = r.below(100);
      st.ax = k < 60 ? "child" : k < 85 ? "descendant" : "attribute";
      if (st.ax == "attribute") st.nt = {"star"}, st.ntText = "*";
      else if (r.chance(40)) { st.nt = {"name", "", g.pick(g.names)}; st.ntText = st.nt[2]; }
      else if (r.chance(40)) { st.nt = {"star"}; st.ntText = "*"; }
      else if (r.chance(70)) st.nt = {"node"};
      else st.nt = {"text"};
      if (r.chance(20)) st.pr.push_back(g.predicate(d));
      e->st.push_back(st);
      if (st.ax == "attribute") break;
    }
    return e;
  }
  Piece pats(bool calls) {
    scope(Scope(), calls);
    g.vars.clear();
    int n = r.chance(75) ? 1 : 2;
    std::vector<E> alts;
    for (int i = 0; i < n; ++i) alts.push_back(g.pat(1));
    Piece q;
    q.j = json(alts);
    q.x = pattern(alts, r.chance(70) ? 0 : &r);
    return q;
  }
  Piece avt(const Scope& s, const std::vector<S>& lits, bool dyn) {
    Piece q;
    S j, x;
    int n = dyn ? 1 + r.below(2) : 1;
    for (int i = 0; i < n; ++i) {
      if (i) j += ",";
      if (!dyn || r.chance(60)) {
        S l = lits[r.below((int)lits.size())];
        j += json(strlit(l));
        for (char c : l) { x += c; if (c == '{' || c == '}') x += c; }
      } else { Piece e = value(s, 1); j += e.j; x += "{" + e.x + "}"; }
    }
    q.j = "[" + j + "]"; q.x = xmlAttr(x);
    return q;
  }
  // ---- pieces of instructions
  Piece withParams(const Scope& s, const S& target) {
    Piece q;
    S j;
    std::set<S> used;
    std::vector<S> names = params[target];
    int n = r.below(3);
    for (int i = 0; i < n; ++i) {
      S name = !names.empty() && r.chance(80) ? names[r.below((int)names.size())] : varNames()[r.below((int)varNames().size())];
      if (!used.insert(name).second) continue;
      Piece b = binding("with-param", s, name);
      j += (j == "" ? "" : ",") + b.j;
      q.x += b.x;
    }
    q.j = "[" + j + "]";
    return q;
  }
  Piece sorts(const Scope& s) {
    Piece q;
    S j;
    int n = r.chance(50) ? 0 : r.chance(70) ? 1 : 2;
    bool np = g.noPos;
    g.noPos = true;
    for (int i = 0; i < n; ++i) {
      bool numb = r.chance(45), desc = r.chance(40), dflt = r.chance(20);
      scope(s, true);
      E e;
      if (dflt) { e = mk("path"); St st; st.ax = "self"; st.nt = {"node"}; e->st.push_back(st); }
      else if (r.chance(50)) { e = mk("path"); St st; st.ax = r.chance(70) ? "attribute" : "child"; st.nt = {"name", "", g.pick(g.names)}; st.ntText = st.nt[2]; e->st.push_back(st); }
      else if (r.chance(40)) e = fn(r.chance(50) ? "name" : "string-length");
      else e = numb ? g.number(1) : g.string(1);
      Piece x = ex(e);
      j += (j == "" ? "[" : ",[") + x.j + "," + (numb ? "true" : "false") + "," + (desc ? "true" : "false") + "]";
      q.x += "<xsl:sort" + (dflt ? S() : " select=\"" + xmlAttr(x.x) + "\"") + (numb ? " data-type=\"number\"" : r.chance(30) ? " data-type=\"text\"" : "") +
             (desc ? " order=\"descending\"" : r.chance(30) ? " order=\"{'ascending'}\"" : "") + "/>";
    }
    g.noPos = np;
    q.j = "[" + j + "]";
    return q;
  }
  // name, select, content: as in xsl:variable, xsl:param and xsl:with-param
  Piece binding(const S& el, const Scope& s, const S& name) {
    Piece q;
    S head = "<xsl:" + el + " name=\"" + name + "\"";
    if (name[0] == 'r' || (name[0] == 's' && r.chance(30))) {
      if (r.chance(10)) { q.j = "[" + jstr(name) + ",[],[]]"; q.x = head + "/>"; return q; }
      Scope t = s;
      Piece b = body(t, 2);
      q.j = "[" + jstr(name) + ",[]," + b.j + "]";
      q.x = head + ">" + b.x + "</xsl:" + el + ">";
      return q;
    }
    Piece e = typed(s, typeOf(name), 1);
    q.j = "[" + jstr(name) + ",[" + e.j + "],[]]";
    q.x = head + " select=\"" + xmlAttr(e.x) + "\"/>";
    return q;
  }
  bool freeName(const Scope& s, S& name) {
    for (int i = 0; i < 6; ++i) { name = varNames()[r.below((int)varNames().size())]; if (!s.locals.count(name)) return true; }
    return false;
  }
  S nsmap(const Scope& s) {
    S o;
    for (auto& n : s.ns) if (n.second != "") o += (o == "" ? "" : ",") + jstr(n.first) + ":" + jstr(n.second);
    return "{" + o + "}";
  }
  // a template of level at least (or above) the scope's, as the mode and the nodes it may be applied to
  bool pickMode(const Scope& s, S& mode, bool& higher) {
    std::vector<int> c;
    for (size_t i = 0; i < modes.size(); ++i) if (2 * (int)i > s.level || (2 * (int)i == s.level && !s.strict)) c.push_back((int)i);
    if (c.empty()) return false;
    int m = c[r.below((int)c.size())];
    if (r.chance(60)) m = c[0];
    mode = modes[m];
    higher = 2 * m > s.level;
    return true;
  }
  Piece instr(Scope& s, int d) {
    --budget;
    int w = r.below(p.wRule + p.wVar + p.wLoop + p.wTree);
    if (w < p.wRule) return rule(s, d);
    w -= p.wRule;
    if (w < p.wVar) return variable(s, d);
    w -= p.wVar;
    if (w < p.wLoop) return loop(s, d);
    return tree(s, d);
  }
  Piece simple(Scope& s) {
    Piece q;
    if (r.chance(35)) {
      S t = r.chance(80) ? g.pick(std::vector<S>{"-", "t", "u ", "z"}) : words()[r.below((int)words().size())];
      q.j = "[\"text\"," + jstr(t) + "]";
      bool plain = t.find_first_not_of(" \n\t") != S::npos && r.chance(50);
      q.x = plain ? xmlText(t) : "<xsl:text>" + xmlText(t) + "</xsl:text>";
      return q;
    }
    Piece e = value(s, 2);
    q.j = "[\"val\"," + e.j + "]";
    q.x = "<xsl:value-of select=\"" + xmlAttr(e.x) + "\"/>";
    return q;
  }
  Piece rule(Scope& s, int d) {
    Piece q;
    int k = r.below(100);
    if (k < 15 && (s.rule || k == 7)) { q.j = "[\"imports\"]"; q.x = "<xsl:apply-imports/>"; return q; }
    if (k < 40) {
      std::vector<int> c;
      for (size_t i = 0; i < named.size(); ++i) if (2 * (int)i + 1 > s.level) c.push_back((int)i);
      if (!c.empty()) {
        S n = named[c[r.below((int)c.size())]];
        if (mayFail && r.chance(3)) n = "nowhere";
        Piece wp = withParams(s, n);
        q.j = "[\"call\"," + jstr(n) + "," + wp.j + "]";
        q.x = "<xsl:call-template name=\"" + lexical(n) + "\">" + wp.x + "</xsl:call-template>";
        return q;
      }
    }
    S mode;
    bool higher;
    if (!pickMode(s, mode, higher)) return simple(s);
    scope(s, true);
    bool dflt = !(s.strict && !higher) && r.chance(30);
    Piece sel;
    if (!dflt) sel = ex(higher && r.chance(50) ? g.nodes(1) : down(1));
    Piece so = sorts(s), wp = withParams(s, mode);
    q.j = "[\"apply\"," + (dflt ? S("[]") : "[" + sel.j + "]") + "," + jstr(mode) + "," + so.j + "," + wp.j + "]";
    q.x = "<xsl:apply-templates" + (dflt ? S() : " select=\"" + xmlAttr(sel.x) + "\"") + (mode == "" ? S() : " mode=\"" + lexical(mode) + "\"") + ">" +
          (r.chance(50) ? so.x + wp.x : wp.x + so.x) + "</xsl:apply-templates>";
    return q;
  }
  Piece variable(Scope& s, int) {
    S n;
    if (!freeName(s, n)) return simple(s);
    Piece b = binding("variable", s, n), q;
    q.j = "[\"var\"," + b.j.substr(1);
    q.x = b.x;
    s.vars[n] = typeOf(n);
    s.locals.insert(n);
    return q;
  }
  Piece loop(Scope& s, int d) {
    Piece q;
    int k = r.below(100);
    if (d <= 0) return simple(s);
    if (k < 55) {
      scope(s, true);
      bool dn = r.chance(60);
      Piece sel = ex(dn ? down(1) : g.nodes(1));
      Piece so = sorts(s);
      Scope t = s;
      t.rule = false;
      if (!dn) t.strict = true;
      Piece b = body(t, d - 1);
      q.j = "[\"for\"," + sel.j + "," + so.j + "," + b.j + "]";
      q.x = "<xsl:for-each select=\"" + xmlAttr(sel.x) + "\">" + so.x + b.x + "</xsl:for-each>";
    } else if (k < 78) {
      scope(s, true);
      Piece e = ex(r.chance(75) ? g.boolean(2) : g.any(1));
      Scope t = s;
      Piece b = body(t, d - 1);
      q.j = "[\"if\"," + e.j + "," + b.j + "]";
      q.x = "<xsl:if test=\"" + xmlAttr(e.x) + "\">" + b.x + "</xsl:if>";
    } else {
      S j, x;
      int n = 1 + r.below(2);
      for (int i = 0; i < n; ++i) {
        scope(s, true);
        Piece e = ex(r.chance(75) ? g.boolean(1) : g.any(1));
        Scope t = s;
        Piece b = body(t, d - 1);
        j += (j == "" ? "[" : ",[") + e.j + "," + b.j + "]";
        x += "<xsl:when test=\"" + xmlAttr(e.x) + "\">" + b.x + "</xsl:when>";
      }
      S oj = "[]";
      if (r.chance(60)) { Scope t = s; Piece b = body(t, d - 1); oj = "[" + b.j + "]"; x += "<xsl:otherwise>" + b.x + "</xsl:otherwise>"; }
      q.j = "[\"choose\",[" + j + "]," + oj + "]";
      q.x = "<xsl:choose>" + x + "</xsl:choose>";
    }
    return q;
  }
  Piece nameAvt(Scope& s, bool attr) {
    static const std::vector<S> en = {"x", "y", "p:x", "q:y", "z"}, an = {"k", "id", "p:k", "q:k", "z"};
    if (mayFail && r.chance(3)) return avt(s, {"1a", "no:x", "a b", "p:"}, false);
    if (r.chance(15)) {
      Piece q;
      E e = fn("concat", {strlit(attr ? "k" : "x"), fn("local-name")});
      Piece v = ex(e);
      q.j = "[" + v.j + "]"; q.x = xmlAttr("{" + v.x + "}");
      return q;
    }
    return avt(s, attr ? an : en, false);
  }
  Piece tree(Scope& s, int d) {
    Piece q;
    int k = r.below(100);
    if (k < 12) {
      scope(s, true);
      E e;
      std::vector<S> rt;
      for (auto& v : s.vars) if (v.first[0] == 'r') rt.push_back(v.first);
      if (!rt.empty() && r.chance(50)) e = mk("var", rt[r.below((int)rt.size())]);
      else if (r.chance(30)) { e = mk("path"); St st; st.ax = "attribute"; st.nt = {"star"}; st.ntText = "*"; e->st.push_back(st); }
      else e = r.chance(70) ? g.nodes(1) : g.any(1);
      Piece x = ex(e);
      q.j = "[\"copyof\"," + x.j + "]";
      q.x = "<xsl:copy-of select=\"" + xmlAttr(x.x) + "\"/>";
      return q;
    }
    if (d <= 0) return simple(s);
    if (k < 24) {
      Scope t = s;
      Piece b = body(t, d - 1);
      q.j = "[\"copy\"," + b.j + "]";
      q.x = "<xsl:copy>" + b.x + "</xsl:copy>";
    } else if (k < 52) {
      static const std::vector<S> uris = {"", "", "u1", "u3", "u2"};
      S ns = uris[r.below(5)], ln = r.chance(50) ? "x" : "y", pre, decl;
      Scope t = s;
      if (ns == "") { if (t.ns[""] != "") { decl = " xmlns=\"\""; t.ns[""] = ""; } }
      else {
        std::vector<S> have;
        for (auto& m : t.ns) if (m.second == ns) have.push_back(m.first);
        if (!have.empty() && r.chance(60)) pre = have[r.below((int)have.size())];
        else { static const char* P[] = {"", "r", "s"}; pre = P[r.below(3)]; t.ns[pre] = ns; decl = " xmlns" + (pre == "" ? S() : ":" + pre) + "=\"" + ns + "\""; }
      }
      if (r.chance(10)) { S e = r.chance(50) ? "r" : "s"; if (e != pre) { S u = r.chance(50) ? "u3" : "u1"; t.ns[e] = u; decl += " xmlns:" + e + "=\"" + u + "\""; } }
      S aj;
      std::set<S> used;
      int na = r.chance(50) ? 0 : 1 + r.below(2);
      for (int i = 0; i < na; ++i) {
        S an = r.chance(50) ? "k" : r.chance(50) ? "id" : "z", ap, au;
        if (r.chance(30)) { std::vector<S> have; for (auto& m : t.ns) if (m.first != "" && m.second != "") have.push_back(m.first); ap = have[r.below((int)have.size())]; au = t.ns[ap]; }
        if (!used.insert(au + "|" + an).second) continue;
        Piece v = avt(s, words(), true);
        aj += (aj == "" ? "[" : ",[") + jstr(au) + "," + jstr(an) + "," + v.j + "]";
        decl += " " + (ap == "" ? an : ap + ":" + an) + "=\"" + v.x + "\"";
      }
      Piece b = body(t, d - 1);
      q.j = "[\"lre\"," + jstr(ns) + "," + jstr(ln) + ",[" + aj + "]," + b.j + "]";
      S nm = pre == "" ? ln : pre + ":" + ln;
      q.x = "<" + nm + decl + ">" + b.x + "</" + nm + ">";
    } else if (k < 84) {
      bool attr = k >= 65;
      Piece n = nameAvt(s, attr);
      S nj = "[]", nx;
      if (r.chance(25)) { Piece v = avt(s, {"u1", "u4", "", "u2"}, false); nj = "[" + v.j + "]"; nx = " namespace=\"" + v.x + "\""; }
      Scope t = s;
      Piece b = body(t, attr ? r.below(d) : d - 1);
      S el = attr ? "attribute" : "element";
      q.j = "[\"" + S(attr ? "attr" : "elem") + "\"," + n.j + "," + nj + "," + nsmap(s) + "," + b.j + "]";
      q.x = "<xsl:" + el + " name=\"" + n.x + "\"" + nx + ">" + b.x + "</xsl:" + el + ">";
    } else if (k < 91) {
      Scope t = s;
      Piece b = body(t, d - 1);
      q.j = "[\"comment\"," + b.j + "]";
      q.x = "<xsl:comment>" + b.x + "</xsl:comment>";
    } else if (k < 97) {
      Piece n = mayFail && r.chance(5) ? avt(s, {"xml", "p:t", "1"}, false) : avt(s, {"t", "t-2"}, false);
      Scope t = s;
      Piece b = body(t, d - 1);
      q.j = "[\"pi\"," + n.j + "," + b.j + "]";
      q.x = "<xsl:processing-instruction name=\"" + n.x + "\">" + b.x + "</xsl:processing-instruction>";
    } else {
      bool term = mayFail && r.chance(20);
      Scope t = s;
      Piece b = body(t, d - 1);
      q.j = "[\"msg\"," + b.j + "," + (term ? "true" : "false") + "]";
      q.x = "<xsl:message" + S(term ? " terminate=\"yes\"" : "") + ">" + b.x + "</xsl:message>";
    }
    return q;
  }
  Piece body(Scope& s, int d) {
    Piece q;
    S j;
    int n = budget <= 0 ? 1 : r.below(100) < 8 ? 0 : 1 + r.below(d > 1 ? 4 : 3);
    for (int i = 0; i < n; ++i) {
      Piece x = budget <= 0 || r.chance(25) ? simple(s) : instr(s, d);
      j += (j == "" ? "" : ",") + x.j;
      // white space next to text is part of it
      bool plain = x.x[0] != '<', after = q.x != "" && *q.x.rbegin() != '>';
      if (i > 0 && r.chance(20)) q.x += !plain && !after && r.chance(50) ? "\n  " : "<!-- c -->";
      q.x += x.x;
    }
    q.j = "[" + j + "]";
    return q;
  }
  // ---- top level
  S globalsJson;
  Scope top() {
    Scope s;
    for (auto& v : globals) s.vars[v.first] = v.second;
    s.ns["p"] = "u1"; s.ns["q"] = "u2";
    return s;
  }
  Piece templat(bool isNamed, bool isRule) {
    Piece q;
    int mi = r.chance(60) ? 0 : r.below((int)modes.size());
    int ni = r.below((int)named.size());
    Scope s = top();
    S name, mode, aj = "[]", attrs, prio = "[]";
    if (isNamed) { name = named[ni]; attrs += " name=\"" + lexical(name) + "\""; s.level = 2 * ni + 1; }
    if (isRule) {
      mode = modes[mi];
      Piece m = pats(false);
      aj = m.j;
      attrs += " match=\"" + xmlAttr(m.x) + "\"";
      if (mode != "") attrs += " mode=\"" + lexical(mode) + "\"";
      if (r.chance(35)) {
        static const int P[] = {-4, -2, -1, 0, 1, 2, 4, 8};
        int v = P[r.below(8)];
        prio = "[" + num(v) + "]";
        char b[20];
        snprintf(b, sizeof b, "%g", v / 4.0);
        attrs += S(" priority=\"") + b + "\"";
      }
      s.level = isNamed ? std::max(s.level, 2 * mi) : 2 * mi;
      s.rule = true;
    }
    budget = 9;
    S bj, bx;
    int np = r.below(100) < 40 + p.wVar ? r.below(3) : 0;
    for (int i = 0; i < np; ++i) {
      S n;
      if (!freeName(s, n)) break;
      Piece b = binding("param", s, n);
      bj += (bj == "" ? "" : ",") + ("[\"param\"," + b.j.substr(1));
      bx += b.x;
      s.vars[n] = typeOf(n);
      s.locals.insert(n);
      if (isNamed) params[name].push_back(n);
      if (isRule) params[mode].push_back(n);
    }
    // a mark of its own, so that it shows which template ran
    static int mark = 0;
    S mk_ = "[" + S(1, (char)('A' + mark++ % 26)) + "]";
    bj += (bj == "" ? "" : ",") + ("[\"text\"," + jstr(mk_) + "]");
    bx += "<xsl:text>" + mk_ + "</xsl:text>";
    Piece b = body(s, 3);
    if (b.j != "[]") bj += "," + b.j.substr(1, b.j.size() - 2);
    bx += b.x;
    q.j = "{\"k\":\"tpl\",\"match\":" + aj + ",\"name\":" + jstr(name) + ",\"mode\":" + jstr(mode) + ",\"pri\":" + prio + ",\"body\":[" + bj + "]}";
    q.x = "<xsl:template" + attrs + ">" + bx + "</xsl:template>\n";
    return q;
  }
  S mods;                                         // JSON of the modules
  // what: the output element, written into the main module
  void stylesheet(const S& output) {
    mayFail = r.chance(p.err);
    modes = {""};
    if (r.chance(60)) modes.push_back(r.chance(70) ? "m1" : "{u1}m1");
    if (r.chance(30)) modes.push_back("{u2}m1");
    named.clear(); params.clear(); keys.clear(); globals.clear(); globalParams.clear(); files.clear();
    int nn = 1 + r.below(p.named);
    for (int i = 0; i < nn; ++i) named.push_back((r.chance(20) ? "{u1}t" : "t") + num(i));
    int nk = r.below(p.keys + 1);
    static const char* KN[] = {"k1", "k2"};
    for (int i = 0; i < nk && i < 2; ++i) keys.push_back(KN[i]);
    int n = 1 + r.below(p.mods);
    // module i may include or import modules of higher number
    std::vector<std::vector<Piece> > items(n);
    std::vector<std::vector<std::pair<bool, int> > > links(n);
    std::vector<int> uses(n, 0);
    for (int i = 1; i < n; ++i) { int from = r.below(i); links[from].push_back({r.chance(65), i}); uses[i] = 1; }
    if (n > 2 && r.chance(15)) { int to = 2 + r.below(n - 2); links[r.below(2)].push_back({true, to}); uses[to]++; }
    // global variables: names first, so that they can refer to each other both ways
    std::vector<std::pair<S, int> > gv;           // name, module
    int ng = r.below(p.globals + 1);
    std::set<S> seen;
    for (int i = 0; i < ng; ++i) {
      S v = varNames()[r.below((int)varNames().size())];
      int m = r.below(n);
      bool again = seen.count(v);
      if (again && (r.chance(50))) continue;
      bool clash = false;
      for (auto& x : gv) if (x.first == v) clash = true;
      if (clash) { bool imp = false; for (auto& x : gv) if (x.first == v) imp = imp || x.second == m || !separate(links, x.second, m, uses); if (imp || uses[m] > 1) continue; }
      else if (uses[m] > 1) m = 0;
      seen.insert(v);
      gv.push_back({v, m});
    }
    std::map<S, char> known;
    std::vector<std::pair<S, int> > ordered = gv;
    for (auto& x : ordered) {
      bool circular = mayFail && r.chance(25);
      Scope s;
      s.ns["p"] = "u1"; s.ns["q"] = "u2";
      for (auto& k : known) s.vars[k.first] = k.second;
      if (circular) for (auto& y : gv) s.vars[y.first] = typeOf(y.first);
      else s.vars.erase(x.first);
      s.level = 100;                              // no templates: they may use any global
      if (mayFail && r.chance(30)) s.level = 0;
      s.strict = true;
      budget = 4;
      bool par = r.chance(50);
      Piece b = binding(par ? "param" : "variable", s, x.first), q;
      if (par) globalParams.push_back(x.first);
      // ["name",sel,body]
      q.j = "{\"k\":\"" + S(par ? "param" : "var") + "\"," + split(b.j) + "}";
      q.x = b.x + "\n";
      items[x.second].push_back(q);
      known[x.first] = typeOf(x.first);
    }
    for (auto& x : gv) globals[x.first] = typeOf(x.first);
    for (auto& k : keys) {
      int c = 1 + r.below(2);
      for (int i = 0; i < c; ++i) {
        std::vector<S> keep;
        keep.swap(keys);
        Piece m = pats(false), u;
        scope(Scope(), false);
        bool np = g.noPos;
        g.noPos = true;
        if (r.chance(60)) { E e = mk("path"); St st; st.ax = r.chance(60) ? "attribute" : "child"; st.nt = r.chance(50) ? std::vector<S>{"star"} : std::vector<S>{"name", "", g.pick(g.names)};
                            st.ntText = st.nt[0] == "star" ? "*" : st.nt[2]; e->st.push_back(st); u = ex(e); }
        else u = ex(r.chance(50) ? g.nodes(1) : g.any(1));
        g.noPos = np;
        keep.swap(keys);
        Piece q;
        q.j = "{\"k\":\"key\",\"name\":" + jstr(k) + ",\"match\":" + m.j + ",\"use\":" + u.j + "}";
        q.x = "<xsl:key name=\"" + k + "\" match=\"" + xmlAttr(m.x) + "\" use=\"" + xmlAttr(u.x) + "\"/>\n";
        items[r.below(n)].push_back(q);
      }
    }
    std::vector<std::pair<int, Piece> > ts;
    std::map<S, std::set<int> > at;
    for (size_t i = 0; i < named.size(); ++i) {   // every named template exists once at least
      Piece t;
      S save = named[i];
      do t = templat(true, r.chance(30)); while (t.j.find("\"name\":" + jstr(named[i]) + ",\"mode\"") == S::npos);
      int m = r.below(n);
      if (uses[m] > 1) m = 0;
      items[m].push_back(t);
      at[named[i]].insert(m);
      if (n > 1 && r.chance(30)) {                // and sometimes again with another precedence
        int m2 = r.below(n);
        if (uses[m2] == 1 && separate(links, m, m2, uses)) {
          do t = templat(true, r.chance(20)); while (t.j.find("\"name\":" + jstr(named[i]) + ",\"mode\"") == S::npos);
          items[m2].push_back(t);
        }
      }
    }
    int nt = 1 + r.below(p.templates);
    for (int i = 0; i < nt; ++i) items[r.below(n)].push_back(templat(false, true));
    mods = "";
    for (int i = 0; i < n; ++i) {
      // shuffle what is there, put includes anywhere and imports first
      for (size_t k = items[i].size(); k > 1; --k) std::swap(items[i][k - 1], items[i][r.below((int)k)]);
      for (auto& l : links[i]) {
        Piece q;
        q.j = "{\"k\":\"" + S(l.first ? "imp" : "inc") + "\",\"m\":" + num(l.second + 1) + "}";
        q.x = "<xsl:" + S(l.first ? "import" : "include") + " href=\"m" + num(l.second + 1) + ".xsl\"/>\n";
        size_t ni = 0;
        while (ni < items[i].size() && items[i][ni].j.compare(0, 10, "{\"k\":\"imp\"") == 0) ++ni;
        items[i].insert(items[i].begin() + (l.first ? ni : ni + r.below((int)(items[i].size() - ni + 1))), q);
      }
      S j, x = "<?xml version=\"1.0\"?>\n<xsl:" + S(r.chance(80) ? "stylesheet" : "transform") + " version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\" xmlns:p=\"u1\" xmlns:q=\"u2\">\n";
      for (size_t k = 0; k < items[i].size(); ++k) { j += (k ? "," : "") + items[i][k].j; x += items[i][k].x; }
      size_t sl = x.find(":transform") != S::npos ? 1 : 0;
      if (i == 0) x += output;
      x += S("</xsl:") + (sl ? "transform" : "stylesheet") + ">\n";
      files["m" + num(i + 1) + ".xsl"] = x;
      mods += (i ? "," : "") + ("{\"items\":[" + j + "]}");
    }
    mods = "[" + mods + "]";
  }
  static S split(const S& b) {                    // ["name",[..],[..]] -> "name":..,"sel":..,"body":..
    size_t c = b.find(',');
    S name = b.substr(1, c - 1), rest = b.substr(c + 1, b.size() - c - 2);
    int depth = 0;
    bool str = false;
    for (size_t i = 0; i < rest.size(); ++i) {
      char ch = rest[i];
      if (str) { if (ch == '\\') ++i; else if (ch == '"') str = false; continue; }
      if (ch == '"') str = true;
      else if (ch == '[' || ch == '{') ++depth;
      else if (ch == ']' || ch == '}') --depth;
      else if (ch == ',' && depth == 0) return "\"name\":" + name + ",\"sel\":" + rest.substr(0, i) + ",\"body\":" + rest.substr(i + 1);
    }
    return "";
  }
  // do two modules certainly have different import precedence
  static bool separate(const std::vector<std::vector<std::pair<bool, int> > >& links, int a, int b, const std::vector<int>& uses) {
    auto home = [&](int m) { for (;;) { bool moved = false; for (size_t f = 0; f < links.size(); ++f) for (auto& l : links[f]) if (l.second == m && !l.first) { m = (int)f; moved = true; } if (!moved) return m; } };
    return uses[a] < 2 && uses[b] < 2 && home(a) != home(b);
  }
};
}
#endif
