------------------------------- MODULE XPath -------------------------------
(* The XPath 1.0 data model and an executable semantics of its expressions.
   A raw document is a sequence of DOM nodes (index 1 is the root); Prep turns it
   into the XPath tree: nodes numbered in document order, adjacent text merged,
   namespace nodes materialised, namespace declarations and doctypes gone.
   Node-sets are sets of those numbers.  Numbers are fixed point, in sixteenths,
   plus NaN, the infinities and negative zero; anything the fixed point cannot
   hold exactly is Top, which means "any value".                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
XMLNS == "http://www.w3.org/XML/1998/namespace"
XMLNSNS == "http://www.w3.org/2000/xmlns/"
RangeOf(s) == {s[i] : i \in DOMAIN s}

---------------------------------------------------------------------------
(* data model *)
DeclPrefix(a) == IF a.nm = "xmlns" THEN "" ELSE a.ln
RECURSIVE InScope(_, _)
InScope(R, i) ==
  IF i = 0 THEN "xml" :> XMLNS
  ELSE IF R[i].t /= "elem" THEN "xml" :> XMLNS
  ELSE LET up == InScope(R, R[i].par)
           decl == {a \in RangeOf(R[i].a) : R[a].ns = XMLNSNS}
           own == [p \in {DeclPrefix(R[a]) : a \in decl} |-> R[CHOOSE a \in decl : DeclPrefix(R[a]) = p].v]
           all == own @@ up
       IN [p \in {q \in DOMAIN all : all[q] /= ""} |-> all[p]]
IsText(r) == r.t \in {"text", "cdata"}
RECURSIVE Runs(_, _)       \* children as groups: a run of text nodes is one group
Runs(R, ks) ==
  IF ks = <<>> THEN <<>>
  ELSE LET rest == Runs(R, Tail(ks)) IN
       IF R[Head(ks)].t = "doctype" THEN rest
       ELSE IF IsText(R[Head(ks)]) /\ Len(ks) > 1 /\ IsText(R[ks[2]])
            THEN <<<<Head(ks)>> \o rest[1]>> \o Tail(rest)
            ELSE <<<<Head(ks)>>>> \o rest
RECURSIVE CatV(_, _)
CatV(R, g) == IF g = <<>> THEN "" ELSE R[Head(g)].v \o CatV(R, Tail(g))
Node(t, key, par, nm, ns, ln, v) == [t |-> t, key |-> key, par |-> par, nm |-> nm, ns |-> ns, ln |-> ln, v |-> v]
RECURSIVE Flat(_, _, _, _), Kids(_, _, _, _)
Flat(R, i, par, base) ==
  LET r == R[i]
      me == Node(IF r.t \in {"doc", "frag"} THEN "root" ELSE r.t, <<i>>, par, r.nm, r.ns, r.ln, r.v)
      sc == IF r.t = "elem" THEN InScope(R, i) ELSE <<>>
      ps == IF r.t = "elem" THEN SetToSeq(DOMAIN sc) ELSE <<>>
      nsn == [j \in DOMAIN ps |-> Node("ns", <<i, ps[j]>>, base + 1, ps[j], "", ps[j], sc[ps[j]])]
      ats == SelectSeq(r.a, LAMBDA a : R[a].ns /= XMLNSNS)
      atn == [j \in DOMAIN ats |-> Node("attr", <<ats[j]>>, base + 1, R[ats[j]].nm, R[ats[j]].ns, R[ats[j]].ln, R[ats[j]].v)]
      head == <<me>> \o nsn \o atn
  IN head \o Kids(R, Runs(R, r.k), base + 1, base + Len(head))
Kids(R, gs, par, base) ==
  IF gs = <<>> THEN <<>>
  ELSE LET g == Head(gs)
           s == IF IsText(R[g[1]]) THEN <<Node("text", <<g[1]>>, par, "", "", "", CatV(R, g))>> ELSE Flat(R, g[1], par, base)
       IN s \o Kids(R, Tail(gs), par, base + Len(s))
RECURSIVE AncOf(_, _)
AncOf(x, i) == IF x[i].par = 0 THEN {} ELSE {x[i].par} \cup AncOf(x, x[i].par)
Branch(x, i) == x[i].t \in {"root", "elem"}
Tree(x, i) == x[i].t \notin {"attr", "ns"}      \* reachable by child steps from the root
RECURSIVE CatSet(_, _)
CatSet(x, s) == IF s = <<>> THEN "" ELSE x[Head(s)].v \o CatSet(x, Tail(s))
Prep(R) ==
  LET x == Flat(R, 1, 0, 0)
      anc == [i \in DOMAIN x |-> AncOf(x, i)]
      sv == [i \in DOMAIN x |-> IF Branch(x, i)
               THEN CatSet(x, SetToSortSeq({j \in DOMAIN x : x[j].t = "text" /\ i \in anc[j]}, <))
               ELSE x[i].v]
  IN [x |-> x, anc |-> anc, sv |-> sv]
Idx(D, key) == CHOOSE i \in DOMAIN D.x : D.x[i].key = key
HasKey(D, key) == \E i \in DOMAIN D.x : D.x[i].key = key

---------------------------------------------------------------------------
(* axes *)
Reverse_(ax) == ax \in {"ancestor", "ancestor-or-self", "preceding", "preceding-sibling", "parent"}
Axis(D, n, ax) ==
  LET x == D.x  N == DOMAIN x
      sib == {m \in N : x[m].par = x[n].par /\ x[n].par /= 0 /\ Tree(x, m)}
      par == IF x[n].par = 0 THEN {} ELSE {x[n].par}
      desc == {m \in N : Tree(x, m) /\ n \in D.anc[m]}
  IN CASE ax = "self" -> {n}
       [] ax = "child" -> {m \in N : x[m].par = n /\ Tree(x, m)}
       [] ax = "parent" -> par
       [] ax = "attribute" -> {m \in N : x[m].par = n /\ x[m].t = "attr"}
       [] ax = "namespace" -> {m \in N : x[m].par = n /\ x[m].t = "ns"}
       [] ax = "ancestor" -> D.anc[n]
       [] ax = "ancestor-or-self" -> D.anc[n] \cup {n}
       [] ax = "descendant" -> desc
       [] ax = "descendant-or-self" -> desc \cup {n}
       [] ax = "following-sibling" -> IF Tree(x, n) THEN {m \in sib : m > n} ELSE {}
       [] ax = "preceding-sibling" -> IF Tree(x, n) THEN {m \in sib : m < n} ELSE {}
       [] ax = "following" -> {m \in N : m > n /\ Tree(x, m) /\ n \notin D.anc[m]}
       [] ax = "preceding" -> {m \in N : m < n /\ Tree(x, m) /\ m \notin D.anc[n]}
Up(S) == SetToSortSeq(S, <)
Down(S) == SetToSortSeq(S, LAMBDA a, b : a > b)
InOrder(S, ax) == IF Reverse_(ax) THEN Down(S) ELSE Up(S)
(* node tests: the principal node type depends on the axis *)
Principal(ax) == IF ax = "attribute" THEN "attr" ELSE IF ax = "namespace" THEN "ns" ELSE "elem"
Test(D, m, ax, nt) ==
  LET y == D.x[m] IN
  CASE nt[1] = "node" -> TRUE
    [] nt[1] = "text" -> y.t = "text"
    [] nt[1] = "comment" -> y.t = "comment"
    [] nt[1] = "pi" -> y.t = "pi" /\ (nt[2] = "" \/ y.nm = nt[2])
    [] nt[1] = "star" -> y.t = Principal(ax)
    [] nt[1] = "nsstar" -> y.t = Principal(ax) /\ y.ns = nt[2]
    [] nt[1] = "name" -> y.t = Principal(ax) /\ y.ns = nt[2] /\ y.ln = nt[3]

---------------------------------------------------------------------------
(* numbers *)
Fin(n) == [k |-> "fin", n |-> n]
NaN == [k |-> "nan", n |-> 0]
Inf == [k |-> "inf", n |-> 0]
MInf == [k |-> "minf", n |-> 0]
NZ == [k |-> "nz", n |-> 0]
NTop == [k |-> "top", n |-> 0]
BIG == 16000000
Chk(n) == IF n > BIG \/ n < -BIG THEN NTop ELSE Fin(n)
Abs(n) == IF n < 0 THEN -n ELSE n
IsZero(a) == a.k = "nz" \/ (a.k = "fin" /\ a.n = 0)
IsInf(a) == a.k \in {"inf", "minf"}
Minus(a) == IF a.k = "minf" \/ a.k = "nz" \/ (a.k = "fin" /\ a.n < 0) THEN TRUE ELSE FALSE
NTops(a, b) == a.k = "top" \/ b.k = "top"
NNans(a, b) == a.k = "nan" \/ b.k = "nan"
Neg(a) == CASE a.k = "inf" -> MInf [] a.k = "minf" -> Inf [] a.k = "nz" -> Fin(0)
            [] a.k = "fin" -> IF a.n = 0 THEN NZ ELSE Fin(-a.n) [] OTHER -> a
Add(a, b) == IF NNans(a, b) THEN NaN ELSE IF NTops(a, b) THEN NTop
  ELSE IF IsInf(a) THEN (IF IsInf(b) /\ a /= b THEN NaN ELSE a)
  ELSE IF IsInf(b) THEN b
  ELSE IF a.k = "nz" /\ b.k = "nz" THEN NZ ELSE Chk(a.n + b.n)
Signed(neg, v) == IF neg THEN Neg(v) ELSE v
Mul(a, b) == LET neg == Minus(a) /= Minus(b) IN
  IF NNans(a, b) THEN NaN ELSE IF NTops(a, b) THEN NTop
  ELSE IF IsInf(a) \/ IsInf(b) THEN (IF IsZero(a) \/ IsZero(b) THEN NaN ELSE Signed(neg, Inf))
  ELSE IF IsZero(a) \/ IsZero(b) THEN Signed(neg, Fin(0))
  ELSE IF Abs(a.n) > 40000 \/ Abs(b.n) > 40000 THEN NTop
  ELSE LET p == Abs(a.n) * Abs(b.n) IN IF p % 16 /= 0 THEN NTop ELSE LET q == Chk(p \div 16) IN IF q.k = "top" THEN q ELSE Signed(neg, q)
Div(a, b) == LET neg == Minus(a) /= Minus(b) IN
  IF NNans(a, b) THEN NaN ELSE IF NTops(a, b) THEN NTop
  ELSE IF IsInf(a) THEN (IF IsInf(b) THEN NaN ELSE Signed(neg, Inf))
  ELSE IF IsInf(b) THEN Signed(neg, Fin(0))
  ELSE IF IsZero(b) THEN (IF IsZero(a) THEN NaN ELSE Signed(neg, Inf))
  ELSE IF IsZero(a) THEN Signed(neg, Fin(0))
  ELSE IF Abs(a.n) > BIG \/ (Abs(a.n) * 16) % Abs(b.n) /= 0 THEN NTop
  ELSE Signed(neg, Chk((Abs(a.n) * 16) \div Abs(b.n)))
Mod(a, b) == IF NNans(a, b) THEN NaN ELSE IF NTops(a, b) THEN NTop
  ELSE IF IsInf(a) \/ IsZero(b) THEN NaN
  ELSE IF IsInf(b) \/ IsZero(a) THEN a
  ELSE Signed(Minus(a), Fin(Abs(a.n) % Abs(b.n)))
Floor(a) == IF a.k = "fin" THEN Fin(a.n - (a.n % 16)) ELSE a
Ceil(a) == Neg(Floor(Neg(a)))
Round(a) == IF a.k /= "fin" \/ a.n = 0 THEN a
            ELSE IF a.n < 0 /\ a.n >= -8 THEN NZ ELSE Floor(Fin(a.n + 8))
Rank(a) == CASE a.k = "inf" -> BIG + 1 [] a.k = "minf" -> -BIG - 1 [] OTHER -> a.n
(* three-valued comparisons: "T", "F" or "U"nknown *)
B3(b) == IF b THEN "T" ELSE "F"
NCmp(op, a, b) ==
  IF NNans(a, b) THEN (IF op = "!=" THEN "T" ELSE "F")
  ELSE IF NTops(a, b) THEN "U"
  ELSE CASE op = "=" -> B3(Rank(a) = Rank(b)) [] op = "!=" -> B3(Rank(a) /= Rank(b))
         [] op = "<" -> B3(Rank(a) < Rank(b)) [] op = "<=" -> B3(Rank(a) <= Rank(b))
         [] op = ">" -> B3(Rank(a) > Rank(b)) [] op = ">=" -> B3(Rank(a) >= Rank(b))
Ex3(S) == IF "T" \in S THEN "T" ELSE IF "U" \in S THEN "U" ELSE "F"

---------------------------------------------------------------------------
(* strings *)
Ch(s, i) == SubSeq(s, i, i)
WS == {" ", "\t", "\n", "\r"}
DigitsS == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DVal == [d \in DigitsS |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
                             [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
FindFrom(s, f, i) == LET C == {k \in i..(Len(s) - Len(f) + 1) : SubSeq(s, k, k + Len(f) - 1) = f}
                     IN IF C = {} THEN 0 ELSE CHOOSE k \in C : \A j \in C : k <= j
Find(s, f) == FindFrom(s, f, 1)
RECURSIVE Norm(_, _, _)     \* normalize-space: rest, pending space, made so far
Norm(s, pend, acc) ==
  IF s = "" THEN acc
  ELSE IF Ch(s, 1) \in WS THEN Norm(SubSeq(s, 2, Len(s)), acc /= "", acc)
  ELSE Norm(SubSeq(s, 2, Len(s)), FALSE, acc \o (IF pend THEN " " ELSE "") \o Ch(s, 1))
NormalizeSpace(s) == Norm(s, FALSE, "")
TrimL(s) == LET k == {i \in 1..Len(s) : Ch(s, i) \notin WS} IN
            IF k = {} THEN "" ELSE SubSeq(s, CHOOSE i \in k : \A j \in k : i <= j, CHOOSE i \in k : \A j \in k : i >= j)
RECURSIVE Translate(_, _, _)
Translate(s, f, t) ==
  IF s = "" THEN ""
  ELSE LET k == Find(f, Ch(s, 1))
           h == IF k = 0 THEN Ch(s, 1) ELSE IF k <= Len(t) THEN Ch(t, k) ELSE ""
       IN h \o Translate(SubSeq(s, 2, Len(s)), f, t)
RECURSIVE Nat_(_, _)        \* digits to integer, -1 if too large
Nat_(s, acc) == IF acc < 0 \/ acc > 900000 THEN -1 ELSE IF s = "" THEN acc ELSE Nat_(SubSeq(s, 2, Len(s)), acc * 10 + DVal[Ch(s, 1)])
AllDigits(s) == \A i \in 1..Len(s) : Ch(s, i) \in DigitsS
RECURSIVE Strip0(_)
Strip0(s) == IF s /= "" /\ Ch(s, Len(s)) = "0" THEN Strip0(SubSeq(s, 1, Len(s) - 1)) ELSE s
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000
StrToNum(s0) ==
  LET s1 == TrimL(s0)
      neg == s1 /= "" /\ Ch(s1, 1) = "-"
      s == IF neg THEN SubSeq(s1, 2, Len(s1)) ELSE s1
      dot == Find(s, ".")
      ip == IF dot = 0 THEN s ELSE SubSeq(s, 1, dot - 1)
      fp0 == IF dot = 0 THEN "" ELSE SubSeq(s, dot + 1, Len(s))
      fp == Strip0(fp0)
      i == Nat_(ip, 0)
  IN IF ~AllDigits(ip) \/ ~AllDigits(fp0) \/ (ip = "" /\ fp0 = "") THEN NaN
     ELSE IF i < 0 \/ Len(fp) > 4 THEN NTop
     ELSE LET f == Nat_(fp, 0) IN IF (f * 16) % Pow10(Len(fp)) /= 0 THEN NTop
          ELSE Signed(neg, Chk(i * 16 + (f * 16) \div Pow10(Len(fp))))
Frac(f) == LET s == ToString(10000 + f * 625) IN Strip0(SubSeq(s, 2, 5))     \* f sixteenths
NumToStr(a) ==
  CASE a.k = "nan" -> "NaN" [] a.k = "inf" -> "Infinity" [] a.k = "minf" -> "-Infinity" [] a.k = "nz" -> "0"
    [] OTHER -> (IF a.n < 0 THEN "-" ELSE "") \o ToString(Abs(a.n) \div 16)
                \o (IF Abs(a.n) % 16 = 0 THEN "" ELSE "." \o Frac(Abs(a.n) % 16))

---------------------------------------------------------------------------
(* values and conversions *)
VB(b) == [t |-> "b", v |-> b]
VN(n) == IF n.k = "top" THEN [t |-> "top", v |-> 0] ELSE [t |-> "n", v |-> n]
VS(s) == [t |-> "s", v |-> s]
VNS(S) == [t |-> "ns", v |-> S]
Top == [t |-> "top", v |-> 0]
VRTF(s, items) == [t |-> "rtf", v |-> s, items |-> items]   \* XSLT: a result tree fragment and its string-value
V3(b3) == IF b3 = "U" THEN Top ELSE VB(b3 = "T")
NInt(i) == VN(Fin(16 * i))
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
(* the first node in document order is not determined among the namespace nodes of one element *)
Vague(D, S) == S /= {} /\ LET f == Least(S) IN D.x[f].t = "ns" /\ \E j \in S \ {f} : D.x[j].t = "ns" /\ D.x[j].par = D.x[f].par
ToB(D, a) == CASE a.t = "b" -> a [] a.t = "rtf" -> VB(TRUE) [] a.t = "s" -> VB(a.v /= "") [] a.t = "ns" -> VB(a.v /= {})
               [] a.t = "n" -> VB(~IsZero(a.v) /\ a.v.k /= "nan") [] OTHER -> Top
ToS(D, a) == CASE a.t = "s" -> a [] a.t = "rtf" -> VS(a.v) [] a.t = "b" -> VS(IF a.v THEN "true" ELSE "false") [] a.t = "n" -> VS(NumToStr(a.v))
               [] a.t = "ns" -> IF a.v = {} THEN VS("") ELSE IF Vague(D, a.v) THEN Top ELSE VS(D.sv[Least(a.v)])
               [] OTHER -> Top
ToN(D, a) == CASE a.t = "n" -> a [] a.t = "b" -> NInt(IF a.v THEN 1 ELSE 0) [] a.t \in {"s", "rtf"} -> VN(StrToNum(a.v))
               [] a.t = "ns" -> LET s == ToS(D, a) IN IF s.t = "top" THEN Top ELSE VN(StrToNum(s.v))
               [] OTHER -> Top
NumOf(D, a) == LET n == ToN(D, a) IN IF n.t = "top" THEN NTop ELSE n.v
SCmp(op, a, b) == B3(IF op = "=" THEN a = b ELSE a /= b)
Flip(op) == CASE op = "<" -> ">" [] op = ">" -> "<" [] op = "<=" -> ">=" [] op = ">=" -> "<=" [] OTHER -> op
Nodes(a) == a.t \in {"ns", "rtf"}          \* a fragment compares like a node-set holding its root
SVals(D, a) == IF a.t = "rtf" THEN {a.v} ELSE {D.sv[i] : i \in a.v}
RECURSIVE Compare(_, _, _, _)
Compare(D, op, a, b) ==
  IF a.t = "top" \/ b.t = "top" THEN "U"
  ELSE IF Nodes(a) /\ Nodes(b)
    THEN Ex3({IF op \in {"=", "!="} THEN SCmp(op, x, y) ELSE NCmp(op, StrToNum(x), StrToNum(y)) : x \in SVals(D, a), y \in SVals(D, b)})
  ELSE IF Nodes(b) THEN Compare(D, Flip(op), b, a)
  ELSE IF Nodes(a)
    THEN IF b.t = "b" THEN Compare(D, op, ToB(D, a), b)
         ELSE Ex3({IF b.t = "s" /\ op \in {"=", "!="} THEN SCmp(op, x, b.v)
                   ELSE NCmp(op, StrToNum(x), NumOf(D, b)) : x \in SVals(D, a)})
  ELSE IF op \in {"=", "!="}
    THEN IF a.t = "b" \/ b.t = "b" THEN SCmp(op, ToB(D, a).v, ToB(D, b).v)
         ELSE IF a.t = "n" \/ b.t = "n" THEN NCmp(op, NumOf(D, a), NumOf(D, b))
         ELSE SCmp(op, a.v, b.v)
  ELSE NCmp(op, NumOf(D, a), NumOf(D, b))

---------------------------------------------------------------------------
(* expressions.  E = [D |-> document, vars |-> bindings]; c = [n |-> node, p |-> position, l |-> size] *)
TopSeq == <<0>>
RECURSIVE Eval(_, _, _), Steps(_, _, _), Preds(_, _, _), Call(_, _, _, _), EvalAll(_, _, _)
StepFrom(E, n, st) == Preds(E, InOrder({m \in Axis(E.D, n, st.ax) : Test(E.D, m, st.ax, st.nt)}, st.ax), st.pr)
Keep(E, s, i, p) ==       \* does the predicate keep the i-th of s
  LET v == Eval(E, [n |-> s[i], p |-> i, l |-> Len(s)], p) IN
  IF v.t = "top" THEN "U"
  ELSE IF v.t = "n" THEN NCmp("=", v.v, Fin(16 * i)) ELSE B3(ToB(E.D, v).v)
Preds(E, s, ps) ==
  IF ps = <<>> \/ s = <<>> \/ s = TopSeq THEN s
  ELSE LET k == [i \in DOMAIN s |-> Keep(E, s, i, Head(ps))]
           amb == (\E i, j \in DOMAIN s : i < j /\ E.D.x[s[i]].t = "ns" /\ E.D.x[s[j]].t = "ns" /\ E.D.x[s[i]].par = E.D.x[s[j]].par
                     /\ (\E m \in DOMAIN s : Eval(E, [n |-> s[m], p |-> m, l |-> Len(s)], Head(ps)) /= Eval(E, [n |-> s[m], p |-> Len(s) + 1 - m, l |-> Len(s)], Head(ps))))
       IN IF amb \/ \E i \in DOMAIN s : k[i] = "U" THEN TopSeq
          ELSE LET kept == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : k[i] = "T")
               IN Preds(E, [j \in DOMAIN kept |-> s[kept[j]]], Tail(ps))
Steps(E, S, sts) ==        \* S a set of nodes, or {0} when unknown
  IF sts = <<>> \/ S = {0} THEN S
  ELSE LET rs == {StepFrom(E, n, Head(sts)) : n \in S} IN
       IF TopSeq \in rs THEN {0} ELSE Steps(E, UNION {RangeOf(r) : r \in rs}, Tail(sts))
VSet(S) == IF S = {0} THEN Top ELSE VNS(S)
EvalAll(E, c, as) == [i \in DOMAIN as |-> Eval(E, c, as[i])]
Eval(E, c, a) ==
  CASE a[1] = "num" -> VN([k |-> a[2], n |-> a[3]])
    [] a[1] = "lit" -> VS(a[2])
    [] a[1] = "var" -> E.vars[a[2]]
    [] a[1] = "neg" -> LET v == ToN(E.D, Eval(E, c, a[2])) IN IF v.t = "top" THEN v ELSE VN(Neg(v.v))
    [] a[1] = "path" -> VSet(Steps(E, IF a[2] THEN {1} ELSE {c.n}, a[3]))
    [] a[1] = "filt" -> LET v == Eval(E, c, a[2]) IN
         IF v.t = "top" THEN v
         ELSE LET s == Preds(E, Up(v.v), a[3]) IN IF s = TopSeq THEN Top ELSE VSet(Steps(E, RangeOf(s), a[4]))
    [] a[1] = "fn" -> Call(E, c, a[2], EvalAll(E, c, a[3]))
    [] a[1] = "bin" ->
         LET op == a[2]  l == Eval(E, c, a[3]) IN
         CASE op \in {"or", "and"} ->
                LET lb == ToB(E.D, l)  r == ToB(E.D, Eval(E, c, a[4])) IN
                IF lb.t = "b" /\ lb.v = (op = "or") THEN lb
                ELSE IF r.t = "b" /\ r.v = (op = "or") THEN r
                ELSE IF lb.t = "top" THEN lb ELSE r
           [] op \in {"=", "!=", "<", "<=", ">", ">="} -> V3(Compare(E.D, op, l, Eval(E, c, a[4])))
           [] op = "|" -> LET r == Eval(E, c, a[4]) IN IF l.t = "top" \/ r.t = "top" THEN Top ELSE VNS(l.v \cup r.v)
           [] OTHER -> LET x == ToN(E.D, l)  y == ToN(E.D, Eval(E, c, a[4])) IN
                IF x.t = "top" \/ y.t = "top" THEN Top
                ELSE VN(CASE op = "+" -> Add(x.v, y.v) [] op = "-" -> Add(x.v, Neg(y.v)) [] op = "*" -> Mul(x.v, y.v)
                          [] op = "div" -> Div(x.v, y.v) [] op = "mod" -> Mod(x.v, y.v))
RECURSIVE Concat(_, _), Sum(_, _)
Concat(D, as) == IF as = <<>> THEN VS("") ELSE
  LET h == ToS(D, Head(as))  t == Concat(D, Tail(as)) IN IF h.t = "top" \/ t.t = "top" THEN Top ELSE VS(h.v \o t.v)
Sum(D, s) == IF s = <<>> THEN Fin(0) ELSE Add(StrToNum(D.sv[Head(s)]), Sum(D, Tail(s)))
Named(y) == y.t \in {"elem", "attr", "pi", "ns"}
Call(E, c, f, as) ==
  LET D == E.D
      N == Len(as)
      arg == IF N >= 1 THEN as[1] ELSE VNS({c.n})          \* defaulted argument
      str(i) == ToS(D, as[i])
      s1 == ToS(D, arg)
      tops == \E i \in DOMAIN as : as[i].t = "top"
      first == IF arg.t /= "ns" \/ arg.v = {} THEN 0 ELSE IF Vague(D, arg.v) THEN -1 ELSE Least(arg.v)
  IN
  IF tops THEN Top
  ELSE CASE f = "position" -> NInt(c.p)
    [] f = "last" -> NInt(c.l)
    [] f = "current" -> VNS({E.cur})                                       \* XSLT
    [] f = "key" -> LET w == IF Nodes(as[2]) THEN SVals(D, as[2]) ELSE {ToS(D, as[2]).v}
                    IN VNS({y[2] : y \in {z \in E.keys[as[1].v] : z[1] \in w}})
    [] f = "count" -> NInt(Cardinality(arg.v))
    [] f = "local-name" -> IF first = -1 THEN Top ELSE VS(IF first = 0 THEN "" ELSE IF Named(D.x[first]) THEN D.x[first].ln ELSE "")
    [] f = "namespace-uri" -> IF first = -1 THEN VS("") ELSE VS(IF first = 0 THEN "" ELSE IF D.x[first].t \in {"elem", "attr"} THEN D.x[first].ns ELSE "")
    [] f = "name" -> IF first = -1 THEN Top ELSE VS(IF first = 0 THEN "" ELSE IF Named(D.x[first]) THEN D.x[first].nm ELSE "")
    [] f = "true" -> VB(TRUE)
    [] f = "false" -> VB(FALSE)
    [] f = "boolean" -> ToB(D, arg)
    [] f = "not" -> VB(~ToB(D, arg).v)
    [] f = "string" -> s1
    [] f = "number" -> ToN(D, arg)
    [] f = "sum" -> VN(Sum(D, Up(arg.v)))
    [] f \in {"floor", "ceiling", "round"} ->
         LET n == ToN(D, arg) IN IF n.t = "top" THEN n
         ELSE VN(CASE f = "floor" -> Floor(n.v) [] f = "ceiling" -> Ceil(n.v) [] f = "round" -> Round(n.v))
    [] f = "concat" -> Concat(D, as)
    [] OTHER ->
       IF s1.t = "top" THEN Top
       ELSE CASE f = "string-length" -> NInt(Len(s1.v))
              [] f = "normalize-space" -> VS(NormalizeSpace(s1.v))
              [] OTHER ->
                 IF f = "substring" THEN
                   LET b == ToN(D, as[2])
                       w == IF N = 3 THEN ToN(D, as[3]) ELSE VN(Inf)
                   IN IF b.t = "top" \/ w.t = "top" THEN Top
                      ELSE LET lo == Round(b.v)
                               hi == Add(lo, Round(w.v))
                               in_(p) == NCmp(">=", Fin(16 * p), lo) = "T" /\ (N = 2 \/ NCmp("<", Fin(16 * p), hi) = "T")
                               P == {p \in 1..Len(s1.v) : in_(p)}
                           IN VS(IF P = {} THEN "" ELSE SubSeq(s1.v, Least(P), CHOOSE p \in P : \A q \in P : q <= p))
                 ELSE IF \E i \in 2..N : str(i).t = "top" THEN Top
                 ELSE LET s == s1.v  t == str(2).v  k == Find(s, t) IN
                      CASE f = "starts-with" -> VB(k = 1)
                        [] f = "contains" -> VB(k > 0)
                        [] f = "substring-before" -> VS(IF k = 0 THEN "" ELSE SubSeq(s, 1, k - 1))
                        [] f = "substring-after" -> VS(IF k = 0 THEN "" ELSE SubSeq(s, k + Len(t), Len(s)))
                        [] f = "translate" -> VS(Translate(s, t, str(3).v))

---------------------------------------------------------------------------
(* XSLT match patterns: n matches a path when some ancestor-or-self context selects n with it *)
Matches(E, n, path) ==
  LET R == {Steps(E, IF path[2] THEN {1} ELSE {c}, path[3]) : c \in E.D.anc[n] \cup {n}} IN
  IF \E r \in R : n \in r THEN "T" ELSE IF {0} \in R THEN "U" ELSE "F"
(* XSLT 5.5: default priority of a single path, times four *)
Priority4(path) ==
  IF path[2] \/ Len(path[3]) /= 1 THEN 2
  ELSE LET st == path[3][1] IN
       IF st.pr /= <<>> THEN 2
       ELSE CASE st.nt[1] = "name" -> 0
              [] st.nt[1] = "pi" -> IF st.nt[2] /= "" THEN 0 ELSE -2
              [] st.nt[1] = "nsstar" -> -1
              [] OTHER -> -2
=============================================================================
