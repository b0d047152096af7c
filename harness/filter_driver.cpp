// Chains of SAX filters between a scripted reader and recording handlers, and attribute lists under random calls.
//   filter_driver chain SEED N OUT     N chains, up to three parses each
//   filter_driver atts  SEED N OUT     N histories of attribute lists
#include "common.hpp"
#include <SAX/ArabicaConfig.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/InputSource.hpp>
#include <SAX/helpers/XMLFilterImpl.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/helpers/LocatorImpl.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/filter/TextOnly.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
#include <SAX/filter/NamespaceTracker.hpp>
#include <SAX/filter/XMLBaseTracker.hpp>
#include <SAX/filter/PYXWriter.hpp>
#include <SAX/filter/Writer.hpp>
#include <SAX/SAXNotRecognizedException.hpp>
#include <SAX/SAXNotSupportedException.hpp>
#include <map>
#include <memory>
using namespace Arabica;
using vf::jstr; using vf::jstrs; using vf::num;
typedef std::string S;
typedef SAX::XMLReaderInterface<S, default_string_adaptor<S> > ReaderI;
typedef SAX::XMLFilterImpl<S, default_string_adaptor<S> > FilterI;
typedef SAX::AttributesImpl<S> AttrsImpl;
typedef SAX::Attributes<S> Attrs;
typedef SAX::DefaultHandler<S> Default;
typedef SAX::InputSource<S> Source;
typedef SAX::SAXParseException<S> ParseEx;
static const S XMLNS = "http://www.w3.org/XML/1998/namespace";

static S field(const char* n, const S& v) { return S(",\"") + n + "\":" + jstr(v); }

struct Ref {
  S scheme; bool hasAuth; S host; bool abs; std::vector<S> segs; S frag;
  Ref() : hasAuth(false), abs(false) { }
  S str() const {
    S r = scheme.empty() ? "" : scheme + ":";
    if (hasAuth) r += "//" + host;
    if (abs) r += "/";
    for (size_t i = 0; i < segs.size(); ++i) { if (i) r += "/"; r += segs[i]; }
    if (!frag.empty()) r += "#" + frag;
    return r;
  }
  S json() const {
    return "{\"scheme\":" + jstr(scheme) + ",\"auth\":" + (hasAuth ? "[" + jstr(host) + ",\"\"]" : S("[]")) + ",\"abs\":" + (abs ? "true" : "false") +
           ",\"segs\":" + jstrs(segs) + ",\"query\":[],\"frag\":" + (frag.empty() ? S("[]") : "[" + jstr(frag) + "]") + "}";
  }
};
static Ref genRef(vf::Rng& g, bool absolute) {
  Ref r;
  static const char* SEG[] = {"a", "bb", "..", ".", "c.xml", "d"};
  if (absolute || g.chance(20)) { r.scheme = g.chance(80) ? "http" : "https"; r.hasAuth = true; r.host = g.chance(50) ? "h" : "www.example.com"; r.abs = true; }
  else if (g.chance(25)) r.abs = true;
  for (int i = 0, n = 1 + g.below(3); i < n; ++i) r.segs.push_back(SEG[g.below(6)]);
  if (g.chance(40)) r.segs.push_back("");
  if (!absolute && g.chance(10)) r.frag = "f";
  if (absolute) r.frag = "";
  return r;
}

struct Ev {
  S e, json;                    // json: the members after "e"
  std::vector<S> a;             // arguments
  AttrsImpl at;
  S full() const { return "{\"e\":" + jstr(e) + json + "}"; }
};
static S attsJson(const Attrs& at) {
  S r = "[";
  for (int i = 0; i < at.getLength(); ++i) {
    if (i) r += ",";
    r += "[" + jstr(at.getURI(i)) + "," + jstr(at.getLocalName(i)) + "," + jstr(at.getQName(i)) + "," + jstr(at.getType(i)) + "," + jstr(at.getValue(i)) + "]";
  }
  return r + "]";
}
static const char* argNames(const S& e) {
  if (e == "spm") return "pu"; if (e == "epm") return "p"; if (e == "ee") return "ulq"; if (e == "ch" || e == "iw" || e == "cm") return "t";
  if (e == "pi") return "td"; if (e == "sk" || e == "sen" || e == "een") return "n"; if (e == "dtd" || e == "not" || e == "eed") return "nps";
  if (e == "unp") return "npso"; if (e == "eld") return "nm"; if (e == "atd") return "nayfv"; if (e == "ied") return "nv";
  if (e == "warn" || e == "err" || e == "fat") return "m"; if (e == "res") return "ps";
  return "";
}
static S argsJson(const S& e, const std::vector<S>& a) {
  S r; const char* n = argNames(e);
  for (size_t i = 0; n[i]; ++i) r += S(",\"") + n[i] + "\":" + jstr(a[i]);
  return r;
}
static Ev mk(const S& e, std::vector<S> a = std::vector<S>()) { Ev x; x.e = e; x.a = a; x.json = argsJson(e, a); return x; }

// ------------------------------------------------------------------ generator
struct Gen {
  vf::Rng& g; std::vector<Ev> out; int names; bool nsprefixes;
  Gen(vf::Rng& r) : g(r), names(0), nsprefixes(r.chance(20)) { }
  void ev(const S& e, std::vector<S> a = std::vector<S>()) { out.push_back(mk(e, a)); }
  S text(int max, bool cr, const char* alpha = 0) {
    static const char* A = "ab <>&\"'\t\n  x]"; S r; S al = alpha ? alpha : A;
    for (int i = 0, n = g.below(max + 1); i < n; ++i) r += al[g.below((int)al.size())];
    if (cr && g.chance(8)) r += "\r";
    size_t p; while ((p = r.find("]]")) != S::npos) r[p] = 'b';
    return r;
  }
  S name() { static const char* N[] = {"a", "b", "c", "long-name"}; return N[g.below(4)]; }
  S fresh(const char* p) { return p + num(names++); }
  S pub() { return g.chance(40) ? "-//P//" + name() : S(); }
  S sys() { S r = g.chance(85) ? name() + ".dtd" : S("q\"uote"); return r; }
  void misc() {
    if (g.chance(25)) ev("cm", {text(6, false, "ab <&\"\n")});
    if (g.chance(20)) ev("pi", {g.chance(50) ? "tgt" : "p2", text(5, false, "ab<&\"") + ""});
    if (g.chance(8)) ev("warn", {"w" + num(g.below(9))});
    if (g.chance(6)) ev("err", {"e" + num(g.below(9))});
  }
  void dtd() {
    bool ext = g.chance(35);
    ev("dtd", {"a", ext ? pub() : S(), ext ? sys() : S()});
    for (int i = 0, n = g.below(6); i < n; ++i) decl();
    if (ext) {
      if (g.chance(40)) ev("res", {pub(), sys()});
      ev("sen", {"[dtd]"});
      for (int i = 0, n = g.below(4); i < n; ++i) decl();
      ev("een", {"[dtd]"});
      if (g.chance(15)) ev("sk", {"[dtd]"});
    }
    ev("edtd");
  }
  void decl() {
    S v;
    switch (g.below(9)) {
      case 0: { static const char* M[] = {"EMPTY", "ANY", "(#PCDATA)", "(a,b)", "(a|b)*", "(a?,b+)"}; ev("eld", {fresh("z"), M[g.below(6)]}); break; }
      case 1: case 2: {
        static const char* T[] = {"CDATA", "NMTOKEN", "ID", "(x|y)"};
        static const char* F[] = {"", "#FIXED", "#IMPLIED", "#REQUIRED"};
        int t = g.below(4), f = t == 2 ? 2 + g.below(2) : g.below(4);
        if (f < 2) v = t == 0 ? text(5, false, "ab <&\"'>%") : S("x");
        ev("atd", {fresh("z"), "d", T[t], F[f], v}); break; }
      case 3: case 4: ev("ied", {(g.chance(25) ? "%" : "") + fresh("n"), text(6, true, "ab <&\"'%;\n")}); break;
      case 5: ev("eed", {(g.chance(25) ? "%" : "") + fresh("n"), pub(), sys()}); break;
      case 6: { S p = pub(); ev("not", {fresh("n"), p, p.empty() || g.chance(50) ? sys() : S()}); break; }
      case 7: ev("unp", {fresh("n"), pub(), sys(), "nn"}); break;
      case 8: if (g.chance(50)) ev("cm", {text(5, false, "ab <")}); else ev("pi", {"tgt", text(4, false, "ab<")}); break;
    }
  }
  void chars(const char* kind) {
    for (int i = 0, n = 1 + g.below(3); i < n; ++i) ev(kind, {S(kind) == "iw" ? text(4, false, " \n\t") : text(6, true)});
  }
  void element(int depth) {
    S pfx, uri, l = name();
    std::vector<std::pair<S, S> > maps;
    static const char* P[] = {"", "p", "q"};
    static const char* U[] = {"u1", "u2", "http://n/&"};
    for (int i = 0; i < 3; ++i) if (g.chance(22)) maps.push_back(std::make_pair(S(P[i]), i == 0 && g.chance(25) ? S() : S(U[g.below(3)])));
    if (maps.size() > 1 && g.chance(50)) std::swap(maps[0], maps[maps.size() - 1]);
    for (size_t i = 0; i < maps.size(); ++i) ev("spm", {maps[i].first, maps[i].second});
    if (!maps.empty() && !maps.back().second.empty() && g.chance(60)) { pfx = maps.back().first; uri = maps.back().second; }
    Ev se; se.e = "se";
    S q = pfx.empty() ? l : pfx + ":" + l;
    se.a = {uri, l, g.chance(92) ? q : (pfx.empty() ? S() : q)};
    if (nsprefixes) for (size_t i = 0; i < maps.size(); ++i)
      if (g.chance(85)) se.at.addAttribute("", maps[i].first.empty() ? "xmlns" : maps[i].first, maps[i].first.empty() ? S("xmlns") : "xmlns:" + maps[i].first, "CDATA", maps[i].second);
    static const char* A[] = {"k", "m", "n"};
    for (int i = 0; i < 3; ++i) if (g.chance(28)) {
      S ap, au; if (!pfx.empty() && g.chance(40)) { ap = pfx; au = uri; }
      se.at.addAttribute(au, A[i], ap.empty() ? (g.chance(90) ? S(A[i]) : S()) : ap + ":" + A[i], "CDATA", text(6, true));
    }
    S b = "[]";
    if (g.chance(30)) { Ref r = genRef(g, false); se.at.addAttribute(XMLNS, "base", "xml:base", "CDATA", r.str()); b = "[" + r.json() + "]"; }
    else if (g.chance(4)) se.at.addAttribute(XMLNS, "base", "xml:base", "CDATA", "");
    else if (g.chance(4)) se.at.addAttribute("", "base", "base", "CDATA", "nothing/to/do");
    se.json = S(",\"u\":") + jstr(uri) + ",\"l\":" + jstr(l) + ",\"q\":" + jstr(se.a[2]) + ",\"at\":" + attsJson(se.at) + ",\"b\":" + b;
    out.push_back(se);
    for (int i = 0, n = g.below(depth > 2 ? 3 : 5); i < n; ++i) {
      int k = g.below(100);
      if (k < 38) chars("ch");
      else if (k < 46) chars("iw");
      else if (k < 54) { ev("sc"); for (int j = 0, m = g.below(3); j < m; ++j) ev("ch", {text(5, false, "ab <&>\n")}); ev("ec"); }
      else if (k < 58) { ev("sen", {"ent"}); if (g.chance(60)) chars("ch"); ev("een", {"ent"}); }
      else if (k < 61) ev("sk", {"skp"});
      else if (k < 74) misc();
      else if (k < 77) ev("res", {pub(), sys()});
      else if (depth < 4) element(depth + 1);
    }
    ev("ee", {uri, l, se.a[2]});
    for (size_t i = maps.size(); i-- > 0;) ev("epm", {maps[i].first});
  }
  void document() {
    ev("loc"); ev("sd");
    misc();
    if (g.chance(35)) { dtd(); misc(); }
    element(0);
    misc();
    ev("ed");
    int k = g.below(100);
    if (k < 22) {   // the reader gives up somewhere
      size_t at = 2 + g.below((int)out.size() - 2);
      out.resize(at);
      if (k < 12) ev("fat", {"f" + num(g.below(9))});
    }
  }
};

// ------------------------------------------------------------------ the scripted reader
struct Stub : public ReaderI {
  const std::vector<Ev>* script; SAX::LocatorImpl<S, default_string_adaptor<S> > loc;
  EntityResolverT* er; DTDHandlerT* dh; ContentHandlerT* ch; SAX::ErrorHandler<S>* eh; DeclHandlerT* xh; LexicalHandlerT* lh;
  std::map<S, bool> features; std::vector<S> resolved; S asked;
  Stub() : script(0), er(0), dh(0), ch(0), eh(0), xh(0), lh(0) { features["f1"] = false; features["f2"] = true; }
  virtual bool getFeature(const S& n) const { std::map<S, bool>::const_iterator i = features.find(n); if (i == features.end()) throw SAX::SAXNotRecognizedException(n); return i->second; }
  virtual void setFeature(const S& n, bool v) { if (n == "ro") throw SAX::SAXNotSupportedException(n); if (!features.count(n)) throw SAX::SAXNotRecognizedException(n); features[n] = v; }
  virtual void setEntityResolver(EntityResolverT& r) { er = &r; } virtual EntityResolverT* getEntityResolver() const { return er; }
  virtual void setDTDHandler(DTDHandlerT& r) { dh = &r; } virtual DTDHandlerT* getDTDHandler() const { return dh; }
  virtual void setContentHandler(ContentHandlerT& r) { ch = &r; } virtual ContentHandlerT* getContentHandler() const { return ch; }
  virtual void setErrorHandler(SAX::ErrorHandler<S>& r) { eh = &r; } virtual SAX::ErrorHandler<S>* getErrorHandler() const { return eh; }
  virtual void setDeclHandler(DeclHandlerT& r) { xh = &r; } virtual DeclHandlerT* getDeclHandler() const { return xh; }
  virtual void setLexicalHandler(LexicalHandlerT& r) { lh = &r; } virtual LexicalHandlerT* getLexicalHandler() const { return lh; }
  virtual void parse(InputSourceT& in) {
    asked = in.getSystemId();
    for (size_t i = 0; i < script->size(); ++i) {
      const Ev& x = (*script)[i]; const std::vector<S>& a = x.a; const S& e = x.e;
      if (e == "loc") ch->setDocumentLocator(loc);
      else if (e == "sd") ch->startDocument(); else if (e == "ed") ch->endDocument();
      else if (e == "spm") ch->startPrefixMapping(a[0], a[1]); else if (e == "epm") ch->endPrefixMapping(a[0]);
      else if (e == "se") ch->startElement(a[0], a[1], a[2], x.at); else if (e == "ee") ch->endElement(a[0], a[1], a[2]);
      else if (e == "ch") ch->characters(a[0]); else if (e == "iw") ch->ignorableWhitespace(a[0]);
      else if (e == "pi") ch->processingInstruction(a[0], a[1]); else if (e == "sk") ch->skippedEntity(a[0]);
      else if (e == "dtd") lh->startDTD(a[0], a[1], a[2]); else if (e == "edtd") lh->endDTD();
      else if (e == "sen") lh->startEntity(a[0]); else if (e == "een") lh->endEntity(a[0]);
      else if (e == "sc") lh->startCDATA(); else if (e == "ec") lh->endCDATA(); else if (e == "cm") lh->comment(a[0]);
      else if (e == "not") dh->notationDecl(a[0], a[1], a[2]); else if (e == "unp") dh->unparsedEntityDecl(a[0], a[1], a[2], a[3]);
      else if (e == "eld") xh->elementDecl(a[0], a[1]); else if (e == "atd") xh->attributeDecl(a[0], a[1], a[2], a[3], a[4]);
      else if (e == "ied") xh->internalEntityDecl(a[0], a[1]); else if (e == "eed") xh->externalEntityDecl(a[0], a[1], a[2]);
      else if (e == "warn") eh->warning(ParseEx(a[0], "pub", "sys", 3, 4)); else if (e == "err") eh->error(ParseEx(a[0], "pub", "sys", 3, 4));
      else if (e == "fat") eh->fatalError(ParseEx(a[0], "pub", "sys", 3, 4));
      else if (e == "res") { Source s = er->resolveEntity(a[0], a[1]); resolved.push_back(s.getSystemId() + "|" + s.getPublicId()); }
      else { std::cerr << "event " << e << "\n"; exit(3); }
    }
  }
};

// ------------------------------------------------------------------ the chain
struct Link {
  S k; int ind; S enc; Ref loc; bool hasLoc;
  std::unique_ptr<FilterI> f; std::unique_ptr<std::ostringstream> os;
  Link() : ind(0), hasLoc(false) { }
  S json() const {
    return "{\"k\":" + jstr(k) + ",\"ind\":" + num(ind) + ",\"enc\":" + jstr(enc) + ",\"loc\":" + (hasLoc ? "[" + loc.json() + "]" : S("[]")) + "}";
  }
  S probe() const {
    if (k == "ns") {
      SAX::NamespaceTracker<S>* t = static_cast<SAX::NamespaceTracker<S>*>(f.get());
      std::map<S, S> m = t->inScopeNamespaces();
      S r = "[" + jstrs({t->getURI(""), t->getURI("p"), t->getURI("q"), t->getURI("xml"), t->getURI("zz"),
                         t->processElementName("x").namespaceUri(), t->processName("x").namespaceUri(), t->processName("xml:x").namespaceUri()}) + ",[";
      for (std::map<S, S>::iterator i = m.begin(); i != m.end(); ++i) { if (i != m.begin()) r += ","; r += "[" + jstr(i->first) + "," + jstr(i->second) + "]"; }
      return r + "]]";
    }
    if (k == "base") {
      SAX::XMLBaseTracker<S>* t = static_cast<SAX::XMLBaseTracker<S>*>(f.get());
      return "[" + jstrs({t->currentBase(), t->makeAbsolute("r/s")}) + ",[]]";
    }
    return "[[],[]]";
  }
};
struct Boom { };
struct Rec;
struct Session {
  std::vector<std::unique_ptr<Link> > links; Stub stub;
  std::vector<S> log; int sw, thr; Rec* second; bool busy;
  Session() : sw(0), thr(0), second(0), busy(false) { }
  FilterI& last() { return *links.back()->f; }
  void add(const Ev& x, int h);
};
struct Rec : public Default {
  Session& s; int h; bool oddError;
  Rec(Session& ss, int hh) : s(ss), h(hh), oddError(false) { }
  void put(const S& e, std::vector<S> a = std::vector<S>()) { s.add(mk(e, a), h); }
  virtual InputSourceT resolveEntity(const S& p, const S& i) { put("res", {p, i}); Source r("got:" + i); r.setPublicId("id:" + p); return r; }
  virtual void notationDecl(const S& a, const S& b, const S& c) { put("not", {a, b, c}); }
  virtual void unparsedEntityDecl(const S& a, const S& b, const S& c, const S& d) { put("unp", {a, b, c, d}); }
  virtual void setDocumentLocator(const LocatorT& l) { if (&l != &s.stub.loc) oddError = true; put("loc"); }
  virtual void startDocument() { put("sd"); } virtual void endDocument() { put("ed"); }
  virtual void startPrefixMapping(const S& p, const S& u) { put("spm", {p, u}); } virtual void endPrefixMapping(const S& p) { put("epm", {p}); }
  virtual void startElement(const S& u, const S& l, const S& q, const AttributesT& at) {
    Ev x; x.e = "se"; x.json = ",\"u\":" + jstr(u) + ",\"l\":" + jstr(l) + ",\"q\":" + jstr(q) + ",\"at\":" + attsJson(at); s.add(x, h);
  }
  virtual void endElement(const S& u, const S& l, const S& q) { put("ee", {u, l, q}); }
  virtual void characters(const S& t) { put("ch", {t}); } virtual void ignorableWhitespace(const S& t) { put("iw", {t}); }
  virtual void processingInstruction(const S& t, const S& d) { put("pi", {t, d}); } virtual void skippedEntity(const S& n) { put("sk", {n}); }
  void problem(const char* k, const SAXParseExceptionT& e) {
    S m = e.what(); size_t p = m.rfind('\n'); if (p != S::npos) m = m.substr(p + 1);
    if (e.getPublicId() != "pub" || e.getSystemId() != "sys" || e.getLineNumber() != 3 || e.getColumnNumber() != 4) m += " (moved)";
    put(k, {m});
  }
  virtual void warning(const SAXParseExceptionT& e) { problem("warn", e); } virtual void error(const SAXParseExceptionT& e) { problem("err", e); }
  virtual void fatalError(const SAXParseExceptionT& e) { problem("fat", e); }
  virtual void startDTD(const S& a, const S& b, const S& c) { put("dtd", {a, b, c}); } virtual void endDTD() { put("edtd"); }
  virtual void startEntity(const S& n) { put("sen", {n}); } virtual void endEntity(const S& n) { put("een", {n}); }
  virtual void startCDATA() { put("sc"); } virtual void endCDATA() { put("ec"); } virtual void comment(const S& t) { put("cm", {t}); }
  virtual void elementDecl(const S& n, const S& m) { put("eld", {n, m}); }
  virtual void attributeDecl(const S& n, const S& a, const S& y, const S& f, const S& v) { put("atd", {n, a, y, f, v}); }
  virtual void internalEntityDecl(const S& n, const S& v) { put("ied", {n, v}); }
  virtual void externalEntityDecl(const S& n, const S& p, const S& i) { put("eed", {n, p, i}); }
};
void Session::add(const Ev& x, int h) {
  S pr = "[";
  for (size_t i = 0; i < links.size(); ++i) { if (i) pr += ","; pr += links[i]->probe(); }
  log.push_back("{\"ev\":" + x.full() + ",\"h\":" + num(h) + ",\"pr\":" + pr + "]}");
  if ((int)log.size() == sw) last().setContentHandler(*second);
  if ((int)log.size() == thr) throw Boom();
}

static void build(vf::Rng& g, Session& s) {
  static const char* K[] = {"plain", "coalesce", "strip", "textonly", "ns", "base", "pyx", "writer"};
  static const int W[] = {5, 24, 8, 4, 20, 20, 5, 24};
  int n = 1 + g.below(4);
  for (int i = 0; i < n; ++i) {
    std::unique_ptr<Link> l(new Link);
    int w = g.below(110), k = 0;
    while (w >= W[k]) w -= W[k++];
    l->k = K[k];
    l->os.reset(new std::ostringstream);
    if (l->k == "writer") { static const int I[] = {0, 0, 2, 1, 3}; l->ind = I[g.below(5)]; if (g.chance(25)) l->enc = "utf-8"; }
    bool wired = g.chance(50);   // through the constructor, or setParent later
    ReaderI& up = i ? static_cast<ReaderI&>(*s.links.back()->f) : s.stub;
    if (l->k == "plain") l->f.reset(wired ? new FilterI(up) : new FilterI());
    else if (l->k == "coalesce") l->f.reset(wired ? new SAX::TextCoalescer<S>(up) : new SAX::TextCoalescer<S>());
    else if (l->k == "strip") l->f.reset(wired ? new SAX::WhitespaceStripper<S>(up) : new SAX::WhitespaceStripper<S>());
    else if (l->k == "textonly") l->f.reset(wired ? new SAX::TextOnly<S>(up) : new SAX::TextOnly<S>());
    else if (l->k == "ns") l->f.reset(wired ? new SAX::NamespaceTracker<S>(up) : new SAX::NamespaceTracker<S>());
    else if (l->k == "base") l->f.reset(wired ? new SAX::XMLBaseTracker<S>(up) : new SAX::XMLBaseTracker<S>());
    else if (l->k == "pyx") l->f.reset(wired ? new SAX::PYXWriter<S>(*l->os, up) : new SAX::PYXWriter<S>(*l->os));
    else if (l->enc.empty()) l->f.reset(wired ? new SAX::Writer<S>(*l->os, up, l->ind) : new SAX::Writer<S>(*l->os, l->ind));
    else l->f.reset(wired ? new SAX::Writer<S>(*l->os, up, l->enc, l->ind) : new SAX::Writer<S>(*l->os, l->enc, l->ind));
    if (!wired) l->f->setParent(up);
    s.links.push_back(std::move(l));
  }
}

// what a reader makes of a writer's text
struct Back : public Default {
  std::vector<S> out; S text, pm; bool any; bool failed;
  Back() : any(false), failed(false) { }
  void flush() { if (!text.empty()) { out.push_back("{\"e\":\"ch\",\"t\":" + jstr(text) + "}"); text.clear(); } }
  void put(const S& e, std::vector<S> a = std::vector<S>()) { flush(); out.push_back(mk(e, a).full()); }
  virtual InputSourceT resolveEntity(const S&, const S&) { Source s; s.setByteStream(std::unique_ptr<std::istream>(new std::istringstream(""))); return s; }
  virtual void startPrefixMapping(const S& p, const S& u) { pm += (pm.empty() ? "[" : ",[") + jstr(p) + "," + jstr(u) + "]"; }
  virtual void startElement(const S&, const S&, const S& q, const AttributesT& at) {
    flush(); S r = "{\"e\":\"se\",\"q\":" + jstr(q) + ",\"ns\":[" + pm + "],\"at\":["; pm.clear();
    for (int i = 0; i < at.getLength(); ++i) r += (i ? ",[" : "[") + jstr(at.getQName(i)) + "," + jstr(at.getValue(i)) + "]";
    out.push_back(r + "]}");
  }
  virtual void endElement(const S&, const S&, const S& q) { flush(); out.push_back("{\"e\":\"ee\",\"q\":" + jstr(q) + "}"); }
  virtual void characters(const S& t) { text += t; } virtual void ignorableWhitespace(const S& t) { text += t; }
  virtual void processingInstruction(const S& t, const S& d) { put("pi", {t, d}); }
  virtual void startCDATA() { put("sc"); } virtual void endCDATA() { put("ec"); } virtual void comment(const S& t) { put("cm", {t}); }
  virtual void startDTD(const S& a, const S& b, const S& c) { put("dtd", {a, b, c}); } virtual void endDTD() { put("edtd"); }
  virtual void notationDecl(const S& a, const S& b, const S& c) { put("not", {a, b, c}); }
  virtual void unparsedEntityDecl(const S& a, const S& b, const S& c, const S& d) { put("unp", {a, b, c, d}); }
  virtual void elementDecl(const S& n, const S& m) { put("eld", {n, m}); }
  virtual void attributeDecl(const S& n, const S& a, const S& y, const S& f, const S& v) { put("atd", {n, a, y, f, v}); }
  virtual void internalEntityDecl(const S& n, const S& v) { put("ied", {n, v}); }
  virtual void externalEntityDecl(const S& n, const S& p, const S& i) { put("eed", {n, p, i}); }
  virtual void fatalError(const SAXParseExceptionT& e) { flush(); S m = e.what(); out.push_back("{\"e\":\"failed\",\"m\":" + jstr(m) + "}"); failed = true; }
};
static S readBack(const S& text) {
  Back b; SAX::XMLReader<S> r;
  r.setContentHandler(b); r.setLexicalHandler(b); r.setDTDHandler(b); r.setDeclHandler(b); r.setErrorHandler(b); r.setEntityResolver(b);
  Source src; src.setByteStream(std::unique_ptr<std::istream>(new std::istringstream(text)));
  try { r.parse(src); } catch (std::exception& e) { b.out.push_back("{\"e\":\"failed\",\"m\":" + jstr(e.what()) + "}"); }
  b.flush();
  S o = "[";
  for (size_t i = 0; i < b.out.size(); ++i) { if (i) o += ","; o += b.out[i]; }
  return o + "]";
}

template <class F> static S outcome(F f) {
  try { return f(); } catch (SAX::SAXNotRecognizedException&) { return "unknown"; } catch (SAX::SAXNotSupportedException&) { return "unsupported"; }
  catch (SAX::SAXException&) { return "refused"; }
}

static int chain(int seed, int n, const char* path) {
  std::ofstream o(path);
  vf::Rng g(seed);
  for (int c = 0; c < n; ++c) {
    Session s; build(g, s);
    Rec r1(s, 1), r2(s, 2); s.second = &r2; Default nothing;
    // configuration goes through to the reader
    S cfg = "[";
    for (int i = 0, m = g.below(4); i < m; ++i) {
      static const char* F[] = {"f1", "f2", "ro", "f3"};
      S name = F[g.below(4)]; bool v = g.chance(50);
      FilterI& at = *s.links[g.below((int)s.links.size())]->f;
      S a = outcome([&]() -> S { at.setFeature(name, v); return "ok"; });
      S b = outcome([&]() -> S { return at.getFeature(name) ? "true" : "false"; });
      cfg += S(i ? "," : "") + jstrs({name, v ? "true" : "false", a, b});
    }
    cfg += "]";
    S alone;
    { FilterI f; SAX::TextCoalescer<S> f2; FilterI& w = g.chance(50) ? static_cast<FilterI&>(f) : f2; Source src("x");
      alone = jstrs({outcome([&]() -> S { w.setFeature("f1", true); return "ok"; }), outcome([&]() -> S { w.getFeature("f1"); return "ok"; }),
                     outcome([&]() -> S { w.parse(src); return "ok"; }), w.getParent() ? "parent" : "none"}); }
    for (int p = 0, np = 1 + g.below(3); p < np; ++p) {
      Gen gen(g); gen.document();
      s.stub.script = &gen.out; s.log.clear(); s.stub.resolved.clear();
      for (auto& l : s.links) {
        l->os->str("");
        if (l->k == "base" && g.chance(20)) { l->loc = genRef(g, true); l->hasLoc = true; static_cast<SAX::XMLBaseTracker<S>*>(l->f.get())->setDocumentLocation(l->loc.str()); }
      }
      Ref sysid; bool hasSys = g.chance(75);
      if (hasSys) sysid = genRef(g, g.chance(80));
      s.stub.loc.setSystemId(hasSys ? sysid.str() : S());
      FilterI& last = s.last();
      bool part = g.chance(30);
      S hs; bool kept = true;
      #define HANDLER(letter, Type) { bool on = !part || g.chance(60); if (on) { last.set##Type(r1); hs += (hs.empty() ? "\"" : ",\"") + S(letter) + "\""; } else last.set##Type(nothing); }
      HANDLER("C", ContentHandler) HANDLER("L", LexicalHandler) HANDLER("D", DTDHandler) HANDLER("X", DeclHandler) HANDLER("E", ErrorHandler) HANDLER("R", EntityResolver)
      kept = (last.getContentHandler() == &r1) == (hs.find('C') != S::npos) && (last.getErrorHandler() == &r1) == (hs.find('E') != S::npos)
          && (last.getLexicalHandler() == &r1) == (hs.find('L') != S::npos) && (last.getDTDHandler() == &r1) == (hs.find('D') != S::npos)
          && (last.getDeclHandler() == &r1) == (hs.find('X') != S::npos) && (last.getEntityResolver() == &r1) == (hs.find('R') != S::npos);
      for (size_t i = 0; i < s.links.size(); ++i)
        kept = kept && s.links[i]->f->getParent() == (i ? static_cast<ReaderI*>(s.links[i - 1]->f.get()) : &s.stub);
      s.sw = g.chance(20) ? 1 + g.below((int)gen.out.size()) : 0;
      s.thr = g.chance(12) ? 1 + g.below((int)gen.out.size()) : 0;
      S in = "["; for (size_t i = 0; i < gen.out.size(); ++i) { if (i) in += ","; in += gen.out[i].full(); } in += "]";
      S links = "["; for (size_t i = 0; i < s.links.size(); ++i) { if (i) links += ","; links += s.links[i]->json(); } links += "]";
      vf::inProgress("{\"seed\":" + num(seed) + ",\"chain\":" + num(c) + ",\"parse\":" + num(p) + ",\"links\":" + links + ",\"in\":" + in + "}");
      S end = "ok"; Source src("doc" + num(p));
      try { last.parse(src); } catch (Boom&) { end = "thrown"; } catch (ParseEx& e) { end = "fatal"; } catch (std::exception& e) { end = e.what(); }
      S log = "["; for (size_t i = 0; i < s.log.size(); ++i) { if (i) log += ","; log += s.log[i]; } log += "]";
      S txt = "[", back = "[";
      for (size_t i = 0; i < s.links.size(); ++i) {
        txt += (i ? "," : "") + jstr(s.links[i]->os->str());
        back += (i ? "," : "") + (s.links[i]->k == "writer" && end == "ok" ? readBack(s.links[i]->os->str()) : S("[]"));
      }
      o << "{\"links\":" << links << ",\"hs\":[" << hs << "],\"sw\":" << s.sw << ",\"thr\":" << s.thr << ",\"sysid\":" << (hasSys ? "[" + sysid.json() + "]" : S("[]"))
        << ",\"cfg\":" << cfg << ",\"alone\":" << alone << ",\"kept\":" << (kept && !r1.oddError && !r2.oddError && s.stub.asked == "doc" + num(p) ? "true" : "false")
        << ",\"in\":" << in << ",\"log\":" << log << ",\"res\":" << jstrs(s.stub.resolved) << ",\"txt\":" << txt << "],\"back\":" << back << "],\"end\":" << jstr(end) << ",\"c\":" << c << ",\"p\":" << p << "}\n";
      cfg = "[]";
    }
  }
  return 0;
}

// ------------------------------------------------------------------ attribute lists
static S look(const AttrsImpl& a) {
  static const char* U[] = {"", "u"}; static const char* L[] = {"", "a", "b"}; static const char* Q[] = {"", "a", "p:a", "b"};
  S r = "{\"at\":" + attsJson(a) + ",\"n\":" + num(a.getLength()) + ",\"un\":[";
  bool first = true;
  for (int u = 0; u < 2; ++u) for (int l = 0; l < 3; ++l) {
    r += (first ? "[" : ",["); first = false;
    r += jstr(U[u]) + "," + jstr(L[l]) + "," + num(a.getIndex(U[u], L[l])) + "," + jstr(a.getType(U[u], L[l])) + "," + jstr(a.getValue(U[u], L[l])) + "]";
  }
  r += "],\"qn\":[";
  for (int q = 0; q < 4; ++q) r += S(q ? "," : "") + "[" + jstr(Q[q]) + "," + num(a.getIndex(Q[q])) + "," + jstr(a.getType(Q[q])) + "," + jstr(a.getValue(Q[q])) + "]";
  int n = a.getLength();
  r += "],\"past\":" + jstrs({a.getURI(n), a.getLocalName(n + 1), a.getQName(-1), a.getType(n), a.getValue(1000)}) + "}";
  return r;
}
static int atts(int seed, int n, const char* path) {
  std::ofstream o(path);
  vf::Rng g(seed);
  static const char* U[] = {"", "u"}; static const char* L[] = {"a", "b", ""}; static const char* Q[] = {"a", "p:a", "b", ""};
  static const char* T[] = {"CDATA", "ID"}; static const char* V[] = {"v", "w", ""};
  for (int c = 0; c < n; ++c) {
    AttrsImpl l[2];
    S ops = "[", obs = "[";
    for (int k = 0, m = 3 + g.below(14); k < m; ++k) {
      int i = g.below(2), x = g.below(4), op = g.below(16);
      AttrsImpl& a = l[i];
      S u = U[g.below(2)], ln = L[g.below(3)], q = Q[g.below(4)], t = T[g.below(2)], v = V[g.below(3)], name, res = "ok", args = "[]";
      if (g.chance(25)) ln = "a";
      int j = g.chance(30) ? i : 1 - i;
      try {
        if (op < 4) { name = "add"; args = jstrs({u, ln, q, t, v}); if (op == 3) a.addAttribute(AttrsImpl::Attr(u, ln, q, t, v)); else a.addAttribute(u, ln, q, t, v); }
        else if (op < 7) { name = "addOrReplace"; args = jstrs({u, ln, q, t, v}); a.addOrReplaceAttribute(u, ln, q, t, v); }
        else if (op == 7) { name = "set"; args = jstrs({u, ln, q, t, v}); a.setAttribute(x, u, ln, q, t, v); }
        else if (op == 8) { name = "remove"; a.removeAttribute(x); }
        else if (op == 9) { name = "uri"; args = jstrs({u}); a.setURI(x, u); }
        else if (op == 10) { name = "local"; args = jstrs({ln}); a.setLocalName(x, ln); }
        else if (op == 11) { name = "qname"; args = jstrs({q}); a.setQName(x, q); }
        else if (op == 12) { name = "type"; args = jstrs({t}); a.setType(x, t); }
        else if (op == 13) { name = "value"; args = jstrs({v}); a.setValue(x, v); }
        else if (op == 14) { if (g.chance(20)) { name = "clear"; a.clear(); } else { name = "value"; args = jstrs({v}); a.setValue(x, v); } }
        else {
          name = "copy"; const Attrs& from = l[j];
          switch (g.below(4)) {
            case 0: a.setAttributes(from); break;
            case 1: a = from; break;
            case 2: { AttrsImpl b(from); a = b; break; }
            default: { AttrsImpl b(l[j]); if (!(b == l[j])) res = "copy differs"; a = b; break; }
          }
        }
      } catch (std::out_of_range&) { res = "range"; }
      ops += S(k ? "," : "") + "{\"i\":" + num(i + 1) + ",\"op\":" + jstr(name) + ",\"x\":" + num(x + 1) + ",\"j\":" + num(j + 1) + ",\"a\":" + args + ",\"res\":" + jstr(res) + "}";
      obs += S(k ? "," : "") + "[" + look(l[0]) + "," + look(l[1]) + "," + (l[0] == l[1] ? "true" : "false") + "]";
      vf::inProgress(ops + "]");
    }
    o << "{\"ops\":" << ops << "],\"obs\":" << obs << "]}\n";
  }
  return 0;
}

int main(int argc, char** argv) {
  if (argc < 5) return 3;
  S m = argv[1];
  if (m == "chain") return chain(atoi(argv[2]), atoi(argv[3]), argv[4]);
  if (m == "atts") return atts(atoi(argv[2]), atoi(argv[3]), argv[4]);
  return 3;
}
