-------------------------------- MODULE Dom --------------------------------
(* The Arabica DOM as a state machine.                                      *)
(*                                                                          *)
(* State: s.n    - sequence of node records, a node is its index            *)
(*        s.dtd  - per parsed document: default attributes, ID attribute    *)
(*                 names, entity contents                                   *)
(*        s.lists - live NodeLists handed out so far                        *)
(*                                                                          *)
(* Every public mutator is an operator  Op(s, args) returning               *)
(*   [ex |-> set of exceptions that are allowed ({} = the call succeeds),   *)
(*    st |-> state after, ret |-> node returned (0 = null),                 *)
(*    loose |-> TRUE when a DocumentFragment operation failed part way]     *)
(* A refused call leaves st = s (unless loose).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

XmlNS   == "http://www.w3.org/XML/1998/namespace"
XmlnsNS == "http://www.w3.org/2000/xmlns/"

SeqSet(q) == {q[i] : i \in 1..Len(q)}
IndexOf(q, e) == IF \E i \in 1..Len(q) : q[i] = e
                 THEN CHOOSE i \in 1..Len(q) : q[i] = e /\ \A j \in 1..(i-1) : q[j] # e
                 ELSE 0
Without(q, e) == LET i == IndexOf(q, e) IN
                 IF i = 0 THEN q ELSE SubSeq(q, 1, i-1) \o SubSeq(q, i+1, Len(q))
InsertAtIdx(q, i, e) == SubSeq(q, 1, i-1) \o <<e>> \o SubSeq(q, i, Len(q))
SelectFirst(q, P(_)) == IF \E i \in 1..Len(q) : P(q[i])
                        THEN q[CHOOSE i \in 1..Len(q) : P(q[i]) /\ \A j \in 1..(i-1) : ~P(q[j])]
                        ELSE 0

\* ---- strings (TLC: Len/SubSeq/\o work on strings) ----
Chr(t, i) == SubSeq(t, i, i)
HasColon(t) == \E i \in 1..Len(t) : Chr(t, i) = ":"
ColonAt(t) == CHOOSE i \in 1..Len(t) : Chr(t, i) = ":" /\ \A j \in 1..(i-1) : Chr(t, j) # ":"
PrefixOf(t) == IF HasColon(t) THEN SubSeq(t, 1, ColonAt(t)-1) ELSE ""
LocalOf(t) == IF HasColon(t) THEN SubSeq(t, ColonAt(t)+1, Len(t)) ELSE t
BadNameChars == {" ", "<", ">", "&", "/", "=", "!", "?"}
GoodName(t) == Len(t) > 0 /\ \A i \in 1..Len(t) : Chr(t, i) \notin BadNameChars

\* ---- node kinds ----
CharTypes == {"text", "cdata", "comment"}
Childless == CharTypes \cup {"pi", "dtype"}
Allowed(pty) ==
  CASE pty = "doc"  -> {"elem", "pi", "comment", "dtype"}
    [] pty \in {"elem", "frag", "eref"} -> {"elem", "pi", "comment", "text", "cdata", "eref"}
    [] pty = "attr" -> {"text", "eref"}
    [] OTHER -> {}

Blank == [ty |-> "", nm |-> "", ns |-> "", hns |-> FALSE, pf |-> "", ln |-> "", val |-> "", par |-> 0,
          kids |-> <<>>, doc |-> 0, ro |-> FALSE, att |-> <<>>, own |-> 0, sp |-> TRUE]

NextId(s) == Len(s.n) + 1
Add(s, rec) == [s EXCEPT !.n = Append(@, rec)]

FirstKid(s, p, ty) == SelectFirst(s.n[p].kids, LAMBDA k : s.n[k].ty = ty)
DocEl(s, d) == FirstKid(s, d, "elem")
DocType(s, d) == FirstKid(s, d, "dtype")

RECURSIVE IsAncOrSelf(_, _, _)
IsAncOrSelf(s, a, x) == IF x = 0 THEN FALSE ELSE IF a = x THEN TRUE ELSE IsAncOrSelf(s, a, s.n[x].par)

RECURSIVE SeqSubtree(_, _)
RECURSIVE FoldCat(_, _, _)
FoldCat(s, q, i) == IF i > Len(q) THEN <<>> ELSE SeqSubtree(s, q[i]) \o FoldCat(s, q, i+1)
SeqSubtree(s, x) == <<x>> \o FoldCat(s, s.n[x].att, 1) \o FoldCat(s, s.n[x].kids, 1)

RECURSIVE ValCat(_, _, _)
ValCat(s, q, i) == IF i > Len(q) THEN ""
                   ELSE LET k == s.n[q[i]] IN
                        (IF k.ty = "eref" THEN ValCat(s, k.kids, 1)
                         ELSE IF k.ty \in CharTypes \cup {"pi"} THEN k.val ELSE "") \o ValCat(s, q, i+1)
Value(s, x) == IF s.n[x].ty = "attr" THEN ValCat(s, s.n[x].kids, 1) ELSE s.n[x].val

\* ---- the DTD of a parsed document ----
DtdOf(s, d) == LET D == SelectSeq(s.dtd, LAMBDA r : r.doc = d) IN
               IF D = <<>> THEN [doc |-> d, defs |-> <<>>, ids |-> <<>>, ents |-> <<>>] ELSE D[1]
DefaultsFor(s, d, elname) == SelectSeq(DtdOf(s, d).defs, LAMBDA r : r.el = elname)
EntityContent(s, d, name) == LET D == DtdOf(s, d).ents
                                 e == SelectSeq(D, LAMBDA r : r.nm = name)
                             IN IF e = <<>> THEN <<>> ELSE e[1].c

\* ---- linking ----
Unlink(s, c) == LET p == s.n[c].par IN
                IF p = 0 THEN s
                ELSE [s EXCEPT !.n[p].kids = Without(@, c), !.n[c].par = 0]
LinkBefore(s, p, c, r) ==
   [s EXCEPT !.n[p].kids = IF r = 0 THEN Append(@, c) ELSE InsertAtIdx(@, IndexOf(@, r), c),
             !.n[c].par = p,
             !.n[c].doc = IF @ = 0 THEN s.n[p].doc ELSE @]

Fail(s, codes) == [ex |-> codes, st |-> s, ret |-> 0, loose |-> FALSE]
Ok(s, r) == [ex |-> {}, st |-> s, ret |-> r, loose |-> FALSE]
Loose(s, codes) == [ex |-> codes, st |-> s, ret |-> 0, loose |-> TRUE]
If(b, set) == IF b THEN set ELSE {}

\* errors common to putting node c under p
AddErr(s, p, c) ==
  LET P == s.n[p]  C == s.n[c] IN
  IF C.ty = "doc" THEN {"HIER"} \cup If(c # p, {"WRONG"}) \cup If(P.ro, {"NOMOD"})
  ELSE If(P.ro, {"NOMOD"})
       \cup If(C.doc # 0 /\ C.doc # P.doc, {"WRONG"})
       \cup If(IsAncOrSelf(s, c, p), {"HIER"})
       \cup If(C.ty \notin Allowed(P.ty), {"HIER"})
       \cup If(C.par # 0 /\ s.n[C.par].ro, {"NOMOD"})
       \cup If(C.par # 0 /\ C.ty = "dtype", {"HIER"})

InsErr(s, p, c, r) ==
  LET P == s.n[p]  C == s.n[c] IN
  AddErr(s, p, c)
   \cup If(P.ty = "doc" /\ C.ty = "elem" /\ DocEl(s, p) # 0, {"HIER"})
   \cup If(P.ty = "doc" /\ C.ty = "dtype" /\ DocType(s, p) # 0, {"HIER"})
   \cup If(r # 0 /\ s.n[r].par # p, {"NOTFOUND"})

InsOne(s, p, c, r) ==
  LET e == InsErr(s, p, c, r) IN
  IF e # {} THEN Fail(s, e)
  ELSE IF c = r THEN Ok(s, c)
  ELSE Ok(LinkBefore(Unlink(s, c), p, c, r), c)

RECURSIVE InsFrag(_, _, _, _)
InsFrag(s, p, f, r) ==
  IF s.n[f].kids = <<>> THEN Ok(s, f)
  ELSE LET c == s.n[f].kids[1]
           x == InsOne(Unlink(s, c), p, c, r)
       IN IF x.ex # {} THEN Loose(x.st, x.ex) ELSE InsFrag(x.st, p, f, r)

InsertBefore(s, p, c, r) ==
  IF s.n[p].ty \in Childless THEN Fail(s, {"HIER"})
  ELSE IF s.n[c].ty # "frag" THEN InsOne(s, p, c, r)
  ELSE LET e == If(s.n[p].ro, {"NOMOD"}) \cup If(IsAncOrSelf(s, c, p), {"HIER"}) \cup If(s.n[c].doc # s.n[p].doc, {"WRONG"}) IN
       IF e # {} THEN Fail(s, e) ELSE InsFrag(s, p, c, r)

AppendChild(s, p, c) == InsertBefore(s, p, c, 0)

RemErr(s, p, o) ==
  LET P == s.n[p] IN
  IF P.ty \in Childless THEN {"NOTFOUND"}
  ELSE If(P.ro, {"NOMOD"}) \cup If(s.n[o].par # p, {"NOTFOUND"})
       \cup If(P.ty = "doc" /\ s.n[o].ty = "dtype", {"HIER"})
RemoveChild(s, p, o) ==
  LET e == RemErr(s, p, o) IN IF e # {} THEN Fail(s, e) ELSE Ok(Unlink(s, o), o)

ReplErr(s, p, c, o) ==
  LET P == s.n[p]  C == s.n[c] IN
  AddErr(s, p, c)
   \cup If(s.n[o].par # p, {"NOTFOUND"})
   \cup If(P.ty = "doc" /\ s.n[o].ty = "dtype", {"HIER"})
   \cup If(P.ty = "doc" /\ C.ty = "elem" /\ DocEl(s, p) \notin {0, o}, {"HIER"})
   \cup If(P.ty = "doc" /\ C.ty = "dtype" /\ DocType(s, p) # 0, {"HIER"})
ReplOne(s, p, c, o) ==
  LET e == ReplErr(s, p, c, o) IN
  IF e # {} THEN Fail(s, e)
  ELSE IF c = o THEN Ok(s, o)
  ELSE LET s1 == Unlink(s, c) IN
       Ok(Unlink(LinkBefore(s1, p, c, o), o), o)

ReplaceChild(s, p, c, o) ==
  IF s.n[p].ty \in Childless THEN Fail(s, {"HIER"})
  ELSE IF s.n[c].ty # "frag" THEN ReplOne(s, p, c, o)
  ELSE LET e == If(s.n[p].ro, {"NOMOD"}) \cup If(IsAncOrSelf(s, c, p), {"HIER"}) \cup If(s.n[c].doc # s.n[p].doc, {"WRONG"})
                \cup If(s.n[p].ty = "doc", {"HIER"})
                \cup If(s.n[o].par # p, {"NOTFOUND"}) IN
       IF e # {} THEN Fail(s, e)
       ELSE IF s.n[c].kids = <<>> THEN RemoveChild(s, p, o)
       ELSE LET lc == s.n[c].kids[Len(s.n[c].kids)]
                x == ReplOne(Unlink(s, lc), p, lc, o)
            IN IF x.ex # {} THEN Loose(x.st, x.ex)
               ELSE LET y == InsFrag(x.st, p, c, lc) IN
                    IF y.ex # {} THEN y ELSE Ok(y.st, o)

\* purgeChild: remove and destroy the subtree
Purge(s, p, o) ==
  LET e == IF s.n[p].ty \in Childless THEN {"HIER", "NOTFOUND"} ELSE RemErr(s, p, o) IN
  IF e # {} THEN Fail(s, e)
  ELSE LET dead == SeqSet(SeqSubtree(s, o))
           s1 == Unlink(s, o)
       IN Ok([s1 EXCEPT !.n = [i \in 1..Len(s1.n) |-> IF i \in dead THEN [Blank EXCEPT !.ty = "dead"] ELSE s1.n[i]],
                        !.lists = [i \in 1..Len(s1.lists) |->
                                     IF s1.lists[i].root \in dead THEN [s1.lists[i] EXCEPT !.root = 0]
                                     ELSE s1.lists[i]]], 0)

\* ---- creation ----
NewText(s, d, ty, v) == Add(s, [Blank EXCEPT !.ty = ty, !.val = v, !.doc = d,
                                 !.nm = CASE ty = "text" -> "#text" [] ty = "cdata" -> "#cdata-section"
                                          [] ty = "comment" -> "#comment"])
CreateChar(s, d, ty, v) == Ok(NewText(s, d, ty, v), NextId(s))
CreatePI(s, d, t, v) ==
  IF ~GoodName(t) THEN Fail(s, {"INVCHAR"})
  ELSE Ok(Add(s, [Blank EXCEPT !.ty = "pi", !.nm = t, !.val = v, !.doc = d]), NextId(s))
CreateFrag(s, d) == Ok(Add(s, [Blank EXCEPT !.ty = "frag", !.nm = "#document-fragment", !.doc = d]), NextId(s))

\* an attribute node with one text child
NewAttrNode(s, rec, v) ==
  LET a == NextId(s) IN
  Add(Add(s, [rec EXCEPT !.kids = <<a+1>>]), [Blank EXCEPT !.ty = "text", !.nm = "#text", !.val = v, !.doc = rec.doc, !.par = a])

RECURSIVE AddDefaults(_, _, _, _)
AddDefaults(s, e, defs, i) ==   \* default attributes of the element's type that are not there yet
  IF i > Len(defs) THEN s
  ELSE LET D == defs[i] IN
       IF \E a \in SeqSet(s.n[e].att) : s.n[a].nm = D.at
       THEN AddDefaults(s, e, defs, i+1)
       ELSE LET a == NextId(s)
                s1 == NewAttrNode(s, [Blank EXCEPT !.ty = "attr", !.nm = D.at, !.doc = s.n[e].doc, !.own = e, !.sp = FALSE], D.v)
            IN AddDefaults([s1 EXCEPT !.n[e].att = Append(@, a)], e, defs, i+1)
WithDefaults(s, e) == AddDefaults(s, e, DefaultsFor(s, s.n[e].doc, s.n[e].nm), 1)

CreateElement(s, d, nm) ==
  IF ~GoodName(nm) THEN Fail(s, {"INVCHAR"})
  ELSE LET e == NextId(s) IN Ok(WithDefaults(Add(s, [Blank EXCEPT !.ty = "elem", !.nm = nm, !.doc = d]), e), e)
CreateAttribute(s, d, nm) ==
  IF ~GoodName(nm) THEN Fail(s, {"INVCHAR"})
  ELSE Ok(Add(s, [Blank EXCEPT !.ty = "attr", !.nm = nm, !.doc = d]), NextId(s))

\* prefix / namespace consistency (DOM Level 2 namespaces)
NSErr(pf, ns, isAttr) ==
  \/ HasColon(pf)
  \/ pf = "xml" /\ ns # XmlNS
  \/ isAttr /\ pf = "xmlns" /\ ns \notin {XmlnsNS, ""}
  \/ pf # "xml" /\ ~(isAttr /\ pf = "xmlns") /\ ns = ""
NSName(ns, qn, isAttr) ==   \* [bad, pf, ln, ns, hns]
  LET pf == PrefixOf(qn)
      chk == IF HasColon(qn) THEN pf ELSE IF isAttr /\ qn = "xmlns" THEN "xmlns" ELSE ""
      bad == chk # "" /\ NSErr(chk, ns, isAttr)
      ns1 == IF isAttr /\ chk = "xmlns" THEN XmlnsNS ELSE ns
  IN [bad |-> bad, pf |-> pf, ln |-> LocalOf(qn), ns |-> ns1, hns |-> ns1 # ""]
NSRec(ty, d, ns, qn) ==
  LET q == NSName(ns, qn, ty = "attr") IN
  [Blank EXCEPT !.ty = ty, !.nm = qn, !.doc = d, !.ns = q.ns, !.hns = q.hns, !.pf = q.pf, !.ln = q.ln]
NSNameErr(ns, qn, isAttr) == If(~GoodName(qn), {"INVCHAR"}) \cup If(GoodName(qn) /\ NSName(ns, qn, isAttr).bad, {"NS"})

CreateElementNS(s, d, ns, qn) ==
  LET e == NSNameErr(ns, qn, FALSE)  id == NextId(s) IN
  IF e # {} THEN Fail(s, e) ELSE Ok(WithDefaults(Add(s, NSRec("elem", d, ns, qn)), id), id)
CreateAttributeNS(s, d, ns, qn) ==
  LET e == NSNameErr(ns, qn, TRUE) IN
  IF e # {} THEN Fail(s, e) ELSE Ok(Add(s, NSRec("attr", d, ns, qn)), NextId(s))

CreateDocType(s, nm) == Ok(Add(s, [Blank EXCEPT !.ty = "dtype", !.nm = nm]), NextId(s))

\* entity reference: contents come from the document's entity declaration, all read-only
RECURSIVE AddTree(_, _, _, _)
RECURSIVE AddTrees(_, _, _, _, _)
AddTree(s, d, par, t) ==
  LET id == NextId(s)
      s1 == Add(s, [Blank EXCEPT !.ty = t.ty, !.nm = t.nm, !.val = t.val, !.doc = d, !.par = par, !.ro = TRUE,
                                 !.ln = IF t.ty = "elem" THEN t.nm ELSE ""])
      s2 == IF par = 0 THEN s1 ELSE [s1 EXCEPT !.n[par].kids = Append(@, id)]
  IN AddTrees(s2, d, id, t.kids, 1)
AddTrees(s, d, par, ts, i) == IF i > Len(ts) THEN s ELSE AddTrees(AddTree(s, d, par, ts[i]), d, par, ts, i+1)
NewEref(s, d, nm) ==
  LET id == NextId(s) IN
  AddTrees(Add(s, [Blank EXCEPT !.ty = "eref", !.nm = nm, !.doc = d, !.ro = TRUE]), d, id, EntityContent(s, d, nm), 1)
CreateEref(s, d, nm) ==
  IF ~GoodName(nm) THEN Fail(s, {"INVCHAR"}) ELSE Ok(NewEref(s, d, nm), NextId(s))

\* ---- copying: cloneNode (same document) and importNode (document d) ----
AttrMatch(rec, ns, ln) ==
  \/ ns = "" /\ ~rec.hns /\ (rec.ln = ln \/ (rec.ln = "" /\ rec.nm = ln))
  \/ rec.ns = ns /\ rec.ln = ln

RECURSIVE Copy(_, _, _, _, _, _)
RECURSIVE CopyKids(_, _, _, _, _, _)
RECURSIVE CopyAtts(_, _, _, _, _, _)
\* copies node src below par (0 = none); the copy is node NextId(s) of the argument state
Copy(s, src, d, par, deep, mode) ==
  LET R == s.n[src]
      id == NextId(s)
      base == [R EXCEPT !.par = par, !.kids = <<>>, !.doc = d, !.ro = FALSE, !.att = <<>>, !.own = 0]
      Link(z) == IF par = 0 THEN z ELSE [z EXCEPT !.n[par].kids = Append(@, id)]
  IN CASE R.ty \in CharTypes \cup {"pi"} -> Link(Add(s, base))
       [] R.ty = "eref" -> LET z == NewEref(s, d, R.nm) IN
                           IF par = 0 THEN z ELSE [z EXCEPT !.n[id].par = par, !.n[par].kids = Append(@, id)]
       [] R.ty = "attr" -> CopyKids(Add(s, [base EXCEPT !.sp = IF mode = "clone" THEN R.sp ELSE TRUE]), R.kids, 1, d, id, mode)
       [] R.ty = "elem" -> LET s1 == CopyAtts(Link(Add(s, base)), R.att, 1, d, id, mode)
                               s2 == WithDefaults(s1, id)
                           IN IF deep THEN CopyKids(s2, R.kids, 1, d, id, mode) ELSE s2
       [] R.ty = "frag" -> LET s1 == Add(s, base) IN IF deep THEN CopyKids(s1, R.kids, 1, d, id, mode) ELSE s1
CopyKids(s, q, i, d, par, mode) ==
  IF i > Len(q) THEN s ELSE CopyKids(Copy(s, q[i], d, par, TRUE, mode), q, i+1, d, par, mode)
CopyAtts(s, q, i, d, e, mode) ==
  IF i > Len(q) THEN s
  ELSE IF ~s.n[q[i]].sp THEN CopyAtts(s, q, i+1, d, e, mode)
  ELSE LET a == NextId(s)
           s1 == Copy(s, q[i], d, 0, TRUE, mode)
       IN CopyAtts([s1 EXCEPT !.n[a].own = e, !.n[e].att = Append(@, a)], q, i+1, d, e, mode)

Clone(s, x, deep) ==
  LET R == s.n[x]  id == NextId(s) IN
  IF R.ty = "doc"
  THEN LET s1 == Add(s, [Blank EXCEPT !.ty = "doc", !.nm = "#document", !.doc = id])
       IN Ok(IF deep THEN CopyKids(s1, R.kids, 1, id, id, "import") ELSE s1, id)
  ELSE Ok(Copy(s, x, R.doc, 0, deep, "clone"), id)
Import(s, d, x, deep) ==
  IF s.n[x].ty \in {"doc", "dtype"} THEN Fail(s, {"NOTSUP"})
  ELSE Ok(Copy(s, x, d, 0, deep, "import"), NextId(s))

\* ---- attributes ----
AttrByName(s, e, nm) == SelectFirst(s.n[e].att, LAMBDA a : s.n[a].nm = nm)
AttrByNS(s, e, ns, ln) == SelectFirst(s.n[e].att, LAMBDA a : AttrMatch(s.n[a], ns, ln))

PutAttr(s, e, a, old) ==   \* a takes old's place in e's attributes (old = 0: added)
  LET s1 == IF old = 0 THEN [s EXCEPT !.n[e].att = Append(@, a)]
            ELSE [s EXCEPT !.n[e].att = [i \in 1..Len(@) |-> IF @[i] = old THEN a ELSE @[i]], !.n[old].own = 0]
  IN [s1 EXCEPT !.n[a].own = e]
SetAttribute(s, e, nm, v) ==
  LET err == If(~GoodName(nm), {"INVCHAR"}) \cup If(s.n[e].ro, {"NOMOD"}) IN
  IF err # {} THEN Fail(s, err)
  ELSE LET a == NextId(s)
           old == AttrByName(s, e, nm)
           s1 == NewAttrNode(s, [Blank EXCEPT !.ty = "attr", !.nm = nm, !.doc = s.n[e].doc], v)
       IN Ok(PutAttr(s1, e, a, old), 0)
SetAttributeNS(s, e, ns, qn, v) ==
  LET err == NSNameErr(ns, qn, TRUE) \cup If(s.n[e].ro, {"NOMOD"}) IN
  IF err # {} THEN Fail(s, err)
  ELSE LET a == NextId(s)
           rec == NSRec("attr", s.n[e].doc, ns, qn)
           old == AttrByNS(s, e, rec.ns, rec.ln)
       IN Ok(PutAttr(NewAttrNode(s, rec, v), e, a, old), 0)
SetAttributeNode(s, e, a, nsaware) ==
  LET A == s.n[a] IN
  IF A.own = e THEN Ok(s, a)
  ELSE LET err == If(s.n[e].ro, {"NOMOD"}) \cup If(A.own # 0, {"INUSE"}) \cup If(A.doc # s.n[e].doc, {"WRONG"}) IN
       IF err # {} THEN Fail(s, err)
       ELSE LET old == IF nsaware THEN AttrByNS(s, e, A.ns, IF A.ln = "" THEN A.nm ELSE A.ln) ELSE AttrByName(s, e, A.nm)
            IN Ok(PutAttr(s, e, a, old), old)
DropAttr(s, e, a) ==
  LET s1 == [s EXCEPT !.n[e].att = Without(@, a), !.n[a].own = 0]
      defs == SelectSeq(DefaultsFor(s, s.n[e].doc, s.n[e].nm), LAMBDA r : r.at = s.n[a].nm)
  IN AddDefaults(s1, e, defs, 1)     \* a declared default comes back
RemoveAttr(s, e, a, ret) ==
  LET err == If(s.n[e].ro, {"NOMOD"}) \cup If(a = 0, {"NOTFOUND"}) IN
  IF err # {} THEN Fail(s, err) ELSE Ok(DropAttr(s, e, a), IF ret THEN a ELSE 0)
RemoveAttributeNode(s, e, a) ==
  LET err == If(s.n[a].own # e, {"NOTFOUND"}) \cup If(s.n[e].ro, {"NOMOD"}) IN
  IF err # {} THEN Fail(s, err) ELSE Ok(DropAttr(s, e, a), a)

\* elements getElementById may return: owners of ID attributes holding v
IdElements(s, d, v) ==
  {s.n[a].own : a \in {x \in 1..Len(s.n) : s.n[x].ty = "attr" /\ s.n[x].own # 0 /\ s.n[x].doc = d
                                           /\ s.n[x].nm \in SeqSet(DtdOf(s, d).ids) /\ Value(s, x) = v}}
InDocument(s, d, x) == IsAncOrSelf(s, d, x)
IdResults(s, d, v) == LET c == IdElements(s, d, v) IN
   IF \E e \in c : InDocument(s, d, e) THEN c ELSE c \cup {0}

\* ---- character data ----
SetText(s, x, v) == [s EXCEPT !.n[x].val = v]
Off(s, x, o) == o >= 0 /\ o <= Len(s.n[x].val)
Min(a, b) == IF a < b THEN a ELSE b
Cut(v, o, c) == SubSeq(v, 1, o) \o SubSeq(v, Min(o + c, Len(v)) + 1, Len(v))
RoErr(s, x) == If(s.n[x].ro, {"NOMOD"})
RangeErr(s, x, o, c) == If(~Off(s, x, o) \/ c < 0, {"INDEX"})
SetData(s, x, v) == IF s.n[x].ro THEN Fail(s, {"NOMOD"}) ELSE Ok(SetText(s, x, v), 0)
AppendData(s, x, v) == IF s.n[x].ro THEN Fail(s, {"NOMOD"}) ELSE Ok(SetText(s, x, s.n[x].val \o v), 0)
InsertData(s, x, o, v) ==
  LET e == RoErr(s, x) \cup RangeErr(s, x, o, 0) IN
  IF e # {} THEN Fail(s, e) ELSE LET t == s.n[x].val IN Ok(SetText(s, x, SubSeq(t, 1, o) \o v \o SubSeq(t, o+1, Len(t))), 0)
DeleteData(s, x, o, c) ==
  LET e == RoErr(s, x) \cup RangeErr(s, x, o, c) IN
  IF e # {} THEN Fail(s, e) ELSE Ok(SetText(s, x, Cut(s.n[x].val, o, c)), 0)
ReplaceData(s, x, o, c, v) ==
  LET e == RoErr(s, x) \cup RangeErr(s, x, o, c) IN
  IF e # {} THEN Fail(s, e)
  ELSE LET t == s.n[x].val IN Ok(SetText(s, x, SubSeq(t, 1, o) \o v \o SubSeq(t, Min(o + c, Len(t)) + 1, Len(t))), 0)
Substring(s, x, o, c) == LET t == s.n[x].val IN SubSeq(t, o + 1, Min(o + c, Len(t)))
SplitText(s, x, o) ==
  LET e == RoErr(s, x) \cup RangeErr(s, x, o, 0)
      X == s.n[x]
      id == NextId(s)
  IN IF e # {} THEN Fail(s, e)
     ELSE LET s1 == Add(SetText(s, x, SubSeq(X.val, 1, o)),
                        [Blank EXCEPT !.ty = X.ty, !.nm = X.nm, !.doc = X.doc, !.val = SubSeq(X.val, o + 1, Len(X.val))])
          IN IF X.par = 0 THEN Ok(s1, id)
             ELSE Ok([s1 EXCEPT !.n[X.par].kids = InsertAtIdx(@, IndexOf(@, x) + 1, id), !.n[id].par = X.par], id)

SetNodeValue(s, x, v) ==
  LET X == s.n[x] IN
  CASE X.ty \in CharTypes \cup {"pi"} -> SetData(s, x, v)
    [] X.ty = "attr" ->
         IF X.ro THEN Fail(s, {"NOMOD"})
         ELSE LET gone == SeqSet(X.kids)
                  s1 == [s EXCEPT !.n = [i \in 1..Len(s.n) |-> IF i \in gone THEN [s.n[i] EXCEPT !.par = 0]
                                                             ELSE IF i = x THEN [s.n[i] EXCEPT !.kids = <<NextId(s)>>, !.sp = TRUE]
                                                             ELSE s.n[i]]]
              IN Ok(Add(s1, [Blank EXCEPT !.ty = "text", !.nm = "#text", !.val = v, !.doc = X.doc, !.par = x]), 0)
    [] OTHER -> Ok(s, 0)

\* ---- normalize: adjacent Text nodes merged into the first, empty ones dropped ----
RECURSIVE NormKids(_, _, _)
RECURSIVE NormSeq(_, _, _)
NormKids(s, p, i) ==
  LET q == s.n[p].kids IN
  IF i > Len(q) THEN s
  ELSE IF s.n[q[i]].ty = "text" THEN
         IF i < Len(q) /\ s.n[q[i+1]].ty = "text"
         THEN NormKids(Unlink(SetText(s, q[i], s.n[q[i]].val \o s.n[q[i+1]].val), q[i+1]), p, i)
         ELSE IF s.n[q[i]].val = "" THEN NormKids(Unlink(s, q[i]), p, i)
         ELSE NormKids(s, p, i + 1)
       ELSE NormKids(NormSeq(NormKids(s, q[i], 1), s.n[q[i]].att, 1), p, i + 1)
NormSeq(s, q, i) == IF i > Len(q) THEN s ELSE NormSeq(NormKids(s, q[i], 1), q, i + 1)
Normalize(s, x) == Ok(NormSeq(NormKids(s, x, 1), s.n[x].att, 1), 0)

SetPrefix(s, x, pf) ==
  LET X == s.n[x]
      e == If(X.ro /\ X.ty = "elem", {"NOMOD"}) \cup If(~X.hns, {"NS"})
           \cup If(X.hns /\ pf # "" /\ NSErr(pf, X.ns, X.ty = "attr"), {"NS"})
  IN IF X.ln = "" THEN Ok(s, 0)       \* DOM Level 1 nodes have no prefix to set
     ELSE IF e # {} THEN Fail(s, e)
     ELSE Ok([s EXCEPT !.n[x].pf = pf, !.n[x].nm = IF pf = "" THEN X.ln ELSE pf \o ":" \o X.ln], 0)

\* ---- live lists ----
RECURSIVE TagWalk(_, _, _)
RECURSIVE TagKids(_, _, _, _)
ListHit(R, L) == IF L.kind = "ns"
                 THEN ((R.hns /\ R.ns = L.ns) \/ L.ns = "*") /\ (R.ln = L.nm \/ L.nm = "*")
                 ELSE R.nm = L.nm \/ L.nm = "*"
TagWalk(s, x, L) == (IF ListHit(s.n[x], L) THEN <<x>> ELSE <<>>) \o TagKids(s, x, L, 1)
TagKids(s, x, L, i) == IF i > Len(s.n[x].kids) THEN <<>>
                       ELSE (IF s.n[s.n[x].kids[i]].ty = "elem" THEN TagWalk(s, s.n[x].kids[i], L) ELSE <<>>) \o TagKids(s, x, L, i + 1)
ListItems(s, L) == IF L.root = 0 THEN <<>>
                   ELSE IF L.kind = "kids" THEN s.n[L.root].kids ELSE TagKids(s, L.root, L, 1)
MakeList(s, root, kind, ns, nm) == Ok([s EXCEPT !.lists = Append(@, [root |-> root, kind |-> kind, ns |-> ns, nm |-> nm])], 0)

\* ---- what the public API shows of a node ----
Sib(s, x, k) == LET p == s.n[x].par IN
                IF p = 0 THEN 0 ELSE LET q == s.n[p].kids  i == IndexOf(q, x) + k IN
                                     IF i < 1 \/ i > Len(q) THEN 0 ELSE q[i]
Ends(q) == IF q = <<>> THEN <<0, 0>> ELSE <<q[1], q[Len(q)]>>
Row(s, x) ==
  LET X == s.n[x] IN
  IF X.ty = "dead" THEN [ty |-> "dead"]
  ELSE [ty |-> X.ty, nm |-> X.nm, ns |-> X.ns, hns |-> X.hns, pf |-> X.pf, ln |-> X.ln, val |-> Value(s, x),
        par |-> X.par, kids |-> X.kids, first |-> Ends(X.kids)[1], last |-> Ends(X.kids)[2],
        prev |-> Sib(s, x, -1), next |-> Sib(s, x, 1),
        doc |-> IF X.ty = "doc" THEN 0 ELSE X.doc,
        att |-> SeqSet(X.att), own |-> X.own, sp |-> X.sp,
        de |-> IF X.ty = "doc" THEN DocEl(s, x) ELSE 0,
        dt |-> IF X.ty = "doc" THEN DocType(s, x) ELSE 0]

\* ---- the dispatcher: one event of the API ----
Apply(s, e, a, t) ==   \* event name, integer arguments, string arguments
  CASE e = "app"  -> AppendChild(s, a[1], a[2])
    [] e = "ins"  -> InsertBefore(s, a[1], a[2], a[3])
    [] e = "rep"  -> ReplaceChild(s, a[1], a[2], a[3])
    [] e = "rem"  -> RemoveChild(s, a[1], a[2])
    [] e = "purge" -> Purge(s, a[1], a[2])
    [] e = "cel"  -> CreateElement(s, a[1], t[1])
    [] e = "celns" -> CreateElementNS(s, a[1], t[1], t[2])
    [] e = "ctext" -> CreateChar(s, a[1], "text", t[1])
    [] e = "ccdata" -> CreateChar(s, a[1], "cdata", t[1])
    [] e = "ccom" -> CreateChar(s, a[1], "comment", t[1])
    [] e = "cpi"  -> CreatePI(s, a[1], t[1], t[2])
    [] e = "cfrag" -> CreateFrag(s, a[1])
    [] e = "cattr" -> CreateAttribute(s, a[1], t[1])
    [] e = "cattrns" -> CreateAttributeNS(s, a[1], t[1], t[2])
    [] e = "ceref" -> CreateEref(s, a[1], t[1])
    [] e = "cdtype" -> CreateDocType(s, t[1])
    [] e = "clone" -> Clone(s, a[1], a[2] = 1)
    [] e = "import" -> Import(s, a[1], a[2], a[3] = 1)
    [] e = "seta" -> SetAttribute(s, a[1], t[1], t[2])
    [] e = "setans" -> SetAttributeNS(s, a[1], t[1], t[2], t[3])
    [] e = "setan" -> SetAttributeNode(s, a[1], a[2], FALSE)
    [] e = "setanns" -> SetAttributeNode(s, a[1], a[2], TRUE)
    [] e = "rema" -> RemoveAttr(s, a[1], AttrByName(s, a[1], t[1]), FALSE)
    [] e = "remans" -> RemoveAttr(s, a[1], AttrByNS(s, a[1], t[1], t[2]), FALSE)
    [] e = "reman" -> RemoveAttributeNode(s, a[1], a[2])
    [] e = "nnmrem" -> RemoveAttr(s, a[1], AttrByName(s, a[1], t[1]), TRUE)
    [] e = "nnmremns" -> RemoveAttr(s, a[1], AttrByNS(s, a[1], t[1], t[2]), TRUE)
    [] e = "setv" -> SetNodeValue(s, a[1], t[1])
    [] e = "setdata" -> SetData(s, a[1], t[1])
    [] e = "appdata" -> AppendData(s, a[1], t[1])
    [] e = "insdata" -> InsertData(s, a[1], a[2], t[1])
    [] e = "deldata" -> DeleteData(s, a[1], a[2], a[3])
    [] e = "repdata" -> ReplaceData(s, a[1], a[2], a[3], t[1])
    [] e = "split" -> SplitText(s, a[1], a[2])
    [] e = "norm" -> Normalize(s, a[1])
    [] e = "setpf" -> SetPrefix(s, a[1], t[1])
    [] e = "list" -> MakeList(s, a[1], t[1], t[2], t[3])
    \* queries
    [] e = "substr" -> LET er == RangeErr(s, a[1], a[2], a[3]) IN IF er # {} THEN Fail(s, er) ELSE Ok(s, 0)
    [] e \in {"geta", "getans", "hasa", "hasans"} -> Ok(s, 0)
    [] e = "getan" -> Ok(s, AttrByName(s, a[1], t[1]))
    [] e = "getanns" -> Ok(s, AttrByNS(s, a[1], t[1], t[2]))
    [] e = "byid" -> Ok(s, 0)

\* string result of a query
StrResult(s, e, a, t) ==
  CASE e = "substr" -> Substring(s, a[1], a[2], a[3])
    [] e = "geta" -> LET x == AttrByName(s, a[1], t[1]) IN IF x = 0 THEN "" ELSE Value(s, x)
    [] e = "getans" -> LET x == AttrByNS(s, a[1], t[1], t[2]) IN IF x = 0 THEN "" ELSE Value(s, x)
    [] e = "hasa" -> IF AttrByName(s, a[1], t[1]) = 0 THEN "no" ELSE "yes"
    [] e = "hasans" -> IF AttrByNS(s, a[1], t[1], t[2]) = 0 THEN "no" ELSE "yes"
    [] OTHER -> ""

\* ---- invariants of the state (the property of the tree itself) ----
Live(s) == {x \in 1..Len(s.n) : s.n[x].ty # "dead"}
TreeOK(s) ==
  \A x \in Live(s) :
    LET X == s.n[x] IN
    /\ \A i \in 1..Len(X.kids) : /\ X.kids[i] \in Live(s)
                                 /\ s.n[X.kids[i]].par = x                      \* parent/child agree
                                 /\ s.n[X.kids[i]].ty \in Allowed(X.ty)         \* only allowed kinds of children
                                 /\ s.n[X.kids[i]].doc = X.doc                  \* one owner document per tree
                                 /\ \A j \in 1..(i-1) : X.kids[j] # X.kids[i]   \* listed once
    /\ X.par # 0 => x \in SeqSet(s.n[X.par].kids)
    /\ X.par # 0 => ~IsAncOrSelf(s, x, X.par)                                   \* no cycles
    /\ X.ty = "doc" => Cardinality({i \in 1..Len(X.kids) : s.n[X.kids[i]].ty = "elem"}) <= 1
    /\ X.ty = "doc" => Cardinality({i \in 1..Len(X.kids) : s.n[X.kids[i]].ty = "dtype"}) <= 1
    /\ X.ty \in {"doc", "frag", "attr"} => X.par = 0
    /\ \A i \in 1..Len(X.att) : s.n[X.att[i]].own = x /\ s.n[X.att[i]].ty = "attr" /\ s.n[X.att[i]].doc = X.doc
    /\ \A i, j \in 1..Len(X.att) : i # j => /\ X.att[i] # X.att[j]
                                            /\ ~(s.n[X.att[i]].hns /\ s.n[X.att[i]].ns = s.n[X.att[j]].ns
                                                 /\ s.n[X.att[i]].ln = s.n[X.att[j]].ln)
    /\ X.own # 0 => X.ty = "attr" /\ x \in SeqSet(s.n[X.own].att)
=============================================================================
