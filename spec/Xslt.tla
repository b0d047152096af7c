------------------------------- MODULE Xslt -------------------------------
(* XSLT 1.0 as an executable semantics: a stylesheet is a sequence of modules that
   include and import each other, a source document is an XPath tree, and a run
   yields a result tree or an error.

   Instructions and expressions are tuples (see the cases of Ins below and Eval in
   XPath.tla).  A result is a sequence of items
     <<"t", s>> <<"e", ns, ln, atts, kids>> <<"a", ns, ln, v>> <<"c", s>> <<"p", name, s>>
   or <<"err">>, the transformation fails here, or <<"top">>, unknown: the expression
   semantics could not tell.                                                       *)
EXTENDS XPath
XErr == <<"err">>
XTop == <<"top">>
VErr == [t |-> "err", v |-> 0]
XConcat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

---------------------------------------------------------------------------
(* the stylesheet: includes are expanded in place, imports make a tree *)
RECURSIVE Items(_, _), Imports(_, _)
Items(M, m) == XConcat([i \in DOMAIN M[m].items |-> LET it == M[m].items[i] IN
                 IF it.k = "inc" THEN Items(M, it.m) ELSE IF it.k = "imp" THEN <<>> ELSE <<it>>])
(* the imports of an included module come after those of the including one *)
Imports(M, m) ==
  LET own == SelectSeq(M[m].items, LAMBDA it : it.k = "imp")
      inc == SelectSeq(M[m].items, LAMBDA it : it.k = "inc")
  IN [i \in DOMAIN own |-> own[i].m] \o XConcat([i \in DOMAIN inc |-> Imports(M, inc[i].m)])
RECURSIVE Order(_, _, _)     \* import tree in post order: later entries have higher precedence
Order(M, m, path) ==
  LET im == Imports(M, m)
  IN XConcat([i \in DOMAIN im |-> Order(M, im[i], Append(path, i))]) \o <<[path |-> path, items |-> Items(M, m)]>>
Below(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p          \* q is imported, directly or not, by p
Components(M) ==     \* every top level element with where it comes from, lowest precedence first
  LET o == Order(M, 1, <<>>)
  IN XConcat([i \in DOMAIN o |-> [j \in DOMAIN o[i].items |-> [prec |-> i, path |-> o[i].path, it |-> o[i].items[j]]]])
(* a template with several alternatives is several rules *)
Rules(cs) ==
  XConcat([i \in DOMAIN cs |-> IF cs[i].it.k /= "tpl" THEN <<>>
    ELSE [j \in DOMAIN cs[i].it.match |->
           [prec |-> cs[i].prec, path |-> cs[i].path, pos |-> i, mode |-> cs[i].it.mode, pat |-> cs[i].it.match[j],
            pri |-> IF cs[i].it.pri = <<>> THEN Priority4(cs[i].it.match[j]) ELSE cs[i].it.pri[1], body |-> cs[i].it.body]]])
Beats(r, q) == \/ r.prec > q.prec
               \/ r.prec = q.prec /\ r.pri > q.pri
               \/ r.prec = q.prec /\ r.pri = q.pri /\ r.pos > q.pos
Highest(cs, C) == CHOOSE i \in C : \A j \in C : cs[i].prec > cs[j].prec \/ (cs[i].prec = cs[j].prec /\ i >= j)
Named_(cs) ==
  LET T == {i \in DOMAIN cs : cs[i].it.k = "tpl" /\ cs[i].it.name /= ""}
  IN [n \in {cs[i].it.name : i \in T} |-> cs[Highest(cs, {i \in T : cs[i].it.name = n})].it.body]
Globals(cs) ==
  LET T == {i \in DOMAIN cs : cs[i].it.k \in {"var", "param"}}
  IN [n \in {cs[i].it.name : i \in T} |-> cs[Highest(cs, {i \in T : cs[i].it.name = n})].it]

---------------------------------------------------------------------------
(* expressions in their context.  c = [n, p, l]; env = [loc, pass, mode, path] *)
RECURSIVE Free(_), FreeSteps(_)
FreeAll(as) == UNION {Free(as[i]) : i \in DOMAIN as}
FreeSteps(sts) == UNION {FreeAll(sts[i].pr) : i \in DOMAIN sts}
Free(a) == CASE a[1] = "var" -> {a[2]}
             [] a[1] = "neg" -> Free(a[2])
             [] a[1] = "path" -> FreeSteps(a[3])
             [] a[1] = "filt" -> Free(a[2]) \cup FreeAll(a[3]) \cup FreeSteps(a[4])
             [] a[1] = "fn" -> FreeAll(a[3])
             [] a[1] = "bin" -> Free(a[3]) \cup Free(a[4])
             [] OTHER -> {}
(* the variables whose values are needed however the expression goes: an operand of "or"
   may never be looked at, and the same holds for predicates when there is no node to test *)
RECURSIVE Must(_)
Must(a) == CASE a[1] = "var" -> {a[2]}
             [] a[1] = "neg" -> Must(a[2])
             [] a[1] = "filt" -> Must(a[2])
             [] a[1] = "fn" -> IF a[3] = <<>> THEN {} ELSE Must(a[3][1])
             [] a[1] = "bin" -> Must(a[3]) \cup (IF a[2] \in {"or", "and"} THEN {} ELSE Must(a[4]))
             [] OTHER -> {}
RECURSIVE Lookup(_, _, _), EvalX(_, _, _, _), Exec(_, _, _, _), Ins(_, _, _, _), GVal(_, _), ApplySeq(_, _, _, _),
          ApplyOne(_, _, _, _, _)
Lookup(S, env, n) == IF n \in DOMAIN env.loc THEN env.loc[n]
                     ELSE IF n \notin DOMAIN S.glob THEN VErr
                     ELSE IF S.ready THEN S.gv[n] ELSE GVal(S, n)
EvalX(S, c, env, a) ==
  LET vs == [n \in Free(a) |-> Lookup(S, env, n)]
  IN IF \E n \in DOMAIN vs : vs[n].t = "err" THEN (IF \E n \in Must(a) : vs[n].t = "err" THEN VErr ELSE Top)
     ELSE Eval([D |-> S.D, vars |-> vs, cur |-> c.n, keys |-> S.keys], c, a)
EvalS(S, c, env, a) == LET v == EvalX(S, c, env, a) IN IF v.t = "err" THEN v ELSE ToS(S.D, v)
EvalB(S, c, env, a) == LET v == EvalX(S, c, env, a) IN IF v.t = "err" THEN v ELSE ToB(S.D, v)
AVT(S, c, env, parts) ==
  LET vs == [i \in DOMAIN parts |-> EvalS(S, c, env, parts[i])]
  IN IF \E i \in DOMAIN vs : vs[i].t = "err" THEN VErr
     ELSE IF \E i \in DOMAIN vs : vs[i].t = "top" THEN Top
     ELSE VS(FoldLeft(LAMBDA a, v : a \o v.v, "", vs))
Bad(v) == v.t \in {"err", "top"}
BadItem(v) == IF v.t = "err" THEN <<XErr>> ELSE <<XTop>>

---------------------------------------------------------------------------
(* result trees *)
Real(i) == i[1] \notin {"a", "m"} /\ i /= <<"t", "">>
FirstReal(is) == LET R == {k \in DOMAIN is : Real(is[k])} IN IF R = {} THEN Len(is) + 1 ELSE Least(R)
AttsOf(is) == SelectSeq(SubSeq(is, 1, FirstReal(is) - 1), LAMBDA i : i[1] = "a")     \* only those before any content
RECURSIVE AttMap(_)
AttMap(as) == IF as = <<>> THEN <<>> ELSE LET b == as[Len(as)] IN ((<<b[2], b[3]>>) :> b[4]) @@ AttMap(SubSeq(as, 1, Len(as) - 1))
RECURSIVE Join(_)           \* the nodes, adjacent text joined
Join(is) ==
  IF is = <<>> THEN <<>>
  ELSE LET h == Head(is)  r == Join(Tail(is)) IN
       IF ~Real(h) THEN r
       ELSE IF h[1] = "t" /\ r /= <<>> /\ r[1][1] = "t" THEN <<<<"t", h[2] \o r[1][2]>>>> \o Tail(r)
       ELSE <<h>> \o r
MkElem(ns, ln, is) == <<"e", ns, ln, AttMap(AttsOf(is)), Join(is)>>
BadIn(is) == \E i \in DOMAIN is : is[i][1] \in {"err", "top"}
TheBad(is) == <<is[Least({i \in DOMAIN is : is[i][1] \in {"err", "top"}})]>>
RECURSIVE Deep(_, _)        \* a bad item anywhere inside
Deep(is, k) == \E i \in DOMAIN is : is[i][1] = k \/ (is[i][1] = "e" /\ Deep(is[i][5], k))
TextOf(is) == FoldLeft(LAMBDA a, i : a \o (IF i[1] = "t" THEN i[2] ELSE ""), "", is)   \* what a comment, say, keeps of its content
RECURSIVE AllText(_)
AllText(is) == FoldLeft(LAMBDA a, i : a \o (IF i[1] = "t" THEN i[2] ELSE IF i[1] = "e" THEN AllText(i[5]) ELSE ""), "", is)
RECURSIVE DeepCopy(_, _)
DeepCopy(D, n) ==
  LET y == D.x[n]
      kids(ax) == XConcat([i \in 1..Len(Up(Axis(D, n, ax))) |-> DeepCopy(D, Up(Axis(D, n, ax))[i])])
  IN CASE y.t = "root" -> kids("child")
       [] y.t = "elem" -> <<MkElem(y.ns, y.ln, kids("attribute") \o kids("child"))>>
       [] y.t = "attr" -> <<<<"a", y.ns, y.ln, y.v>>>>
       [] y.t = "text" -> <<<<"t", y.v>>>>
       [] y.t = "comment" -> <<<<"c", y.v>>>>
       [] y.t = "pi" -> <<<<"p", y.nm, y.v>>>>
       [] OTHER -> <<>>
RECURSIVE Repl(_, _, _)
Repl(s, f, t) == LET k == Find(s, f) IN IF k = 0 THEN s ELSE Repl(SubSeq(s, 1, k - 1) \o t \o SubSeq(s, k + Len(f), Len(s)), f, t)
CommentText(s) == LET r == Repl(s, "--", "- -") IN IF r /= "" /\ Ch(r, Len(r)) = "-" THEN r \o " " ELSE r
PIText(s) == Repl(s, "?>", "? >")
NCStart == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "_"}
NCChar == NCStart \cup DigitsS \cup {"-", "."}
IsNC(s) == Len(s) > 0 /\ Ch(s, 1) \in NCStart /\ \A i \in 1..Len(s) : Ch(s, i) \in NCChar
Prefix_(s) == LET k == Find(s, ":") IN IF k = 0 THEN "" ELSE SubSeq(s, 1, k - 1)
Local_(s) == LET k == Find(s, ":") IN IF k = 0 THEN s ELSE SubSeq(s, k + 1, Len(s))
IsQN(s) == IsNC(Local_(s)) /\ (Find(s, ":") = 0 \/ IsNC(Prefix_(s)))

---------------------------------------------------------------------------
(* sorting *)
ALPHA == "\t\n\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord(ch) == Find(ALPHA, ch)
RECURSIVE StrCmp(_, _)      \* by character code, as this library does in every language
StrCmp(a, b) == IF a = "" THEN (IF b = "" THEN 0 ELSE -1) ELSE IF b = "" THEN 1
  ELSE IF Ch(a, 1) = Ch(b, 1) THEN StrCmp(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
  ELSE IF Ord(Ch(a, 1)) < Ord(Ch(b, 1)) THEN -1 ELSE 1
NumCmpK(a, b) ==            \* NaN before every number
  IF a.k = "nan" THEN (IF b.k = "nan" THEN 0 ELSE -1) ELSE IF b.k = "nan" THEN 1
  ELSE IF Rank(a) < Rank(b) THEN -1 ELSE IF Rank(a) > Rank(b) THEN 1 ELSE 0
RECURSIVE KeyCmp(_, _, _)
KeyCmp(sorts, a, b) ==      \* a, b: the key values of two nodes
  IF sorts = <<>> THEN 0
  ELSE LET d == IF Head(sorts)[2] THEN NumCmpK(Head(a), Head(b)) ELSE StrCmp(Head(a), Head(b))
       IN IF d /= 0 THEN (IF Head(sorts)[3] THEN -d ELSE d) ELSE KeyCmp(Tail(sorts), Tail(a), Tail(b))
Sorted(S, c, env, ns, sorts) ==     \* ns in document order; <<>>, a sequence, or a bad marker <<0>> / <<-1>>
  IF sorts = <<>> THEN ns
  ELSE LET val(i, j) == LET cc == [n |-> ns[i], p |-> i, l |-> Len(ns)]  v == EvalX(S, cc, env, sorts[j][1]) IN
                        IF v.t = "err" THEN v ELSE IF sorts[j][2] THEN ToN(S.D, v) ELSE ToS(S.D, v)
           vs == TLCEval([i \in DOMAIN ns |-> [j \in DOMAIN sorts |-> val(i, j)]])
           ks == [i \in DOMAIN ns |-> [j \in DOMAIN sorts |-> vs[i][j].v]]
           less(i, j) == LET d == KeyCmp(sorts, ks[i], ks[j]) IN d < 0 \/ (d = 0 /\ i < j)
       IN IF \E i \in DOMAIN ns : \E j \in DOMAIN sorts : vs[i][j].t = "err" THEN <<-1>>
          ELSE IF \E i \in DOMAIN ns : \E j \in DOMAIN sorts : vs[i][j].t = "top" THEN <<0>>
          ELSE LET o == SortSeq([i \in DOMAIN ns |-> i], less) IN [i \in DOMAIN o |-> ns[o[i]]]

---------------------------------------------------------------------------
(* variables *)
(* elements in the content of attributes, comments and processing instructions are left out unread *)
Building(S, b) == [S EXCEPT !.building = b]
NoEnv == [loc |-> <<>>, pass |-> <<>>, rule |-> FALSE, mode |-> "", path |-> <<>>]
VarVal(S, c, env, sel, body) ==
  IF sel /= <<>> THEN EvalX(S, c, env, sel[1])
  ELSE IF body = <<>> THEN VS("")
  ELSE LET is == Exec(Building(S, TRUE), c, env, body) IN
       IF Deep(is, "top") THEN Top ELSE IF Deep(is, "err") THEN VErr
       ELSE LET j == Join(is) IN VRTF(AllText(j), j)
GVal(S, n) ==
  IF n \in S.vis THEN VErr                                             \* refers to itself
  ELSE LET g == S.glob[n]  T == [S EXCEPT !.vis = @ \cup {n}] IN
       IF g.k = "param" /\ n \in DOMAIN S.passed THEN S.passed[n]
       ELSE VarVal(T, [n |-> 1, p |-> 1, l |-> 1], NoEnv, g.sel, g.body)
Passed(S, c, env, wps) ==
  [n \in {wps[i][1] : i \in DOMAIN wps} |->
     LET w == wps[CHOOSE i \in DOMAIN wps : wps[i][1] = n] IN VarVal(S, c, env, w[2], w[3])]

---------------------------------------------------------------------------
(* template rules *)
Winner(S, n, mode, R) ==     \* 0: none, -1: unknown
  LET C == {r \in R : S.rules[r].mode = mode /\ S.match[r][n] /= "F"}
  IN IF C = {} THEN 0
     ELSE LET w == CHOOSE r \in C : \A q \in C : q = r \/ Beats(S.rules[r], S.rules[q]) \/ (S.rules[r].pos = S.rules[q].pos /\ S.rules[r].pri = S.rules[q].pri /\ r > q)
          IN IF S.match[w][n] = "U" THEN -1 ELSE w
Children(D, n) == Up(Axis(D, n, "child"))
ApplyOne(S, c, mode, R, pass) ==
  LET w == Winner(S, c.n, mode, R)  y == S.D.x[c.n] IN
  IF w = -1 THEN <<XTop>>
  ELSE IF w > 0 THEN Exec(S, c, [loc |-> <<>>, pass |-> pass, rule |-> TRUE, mode |-> mode, path |-> S.rules[w].path], S.rules[w].body)
  ELSE CASE y.t \in {"root", "elem"} -> ApplySeq(S, Children(S.D, c.n), mode, <<>>)
         [] y.t \in {"text", "attr"} -> <<<<"t", y.v>>>>
         [] OTHER -> <<>>
ApplySeq(S, ns, mode, pass) ==
  XConcat([i \in DOMAIN ns |-> ApplyOne(S, [n |-> ns[i], p |-> i, l |-> Len(ns)], mode, DOMAIN S.rules, pass)])

---------------------------------------------------------------------------
(* instructions *)
Bind(env, n, v) == [env EXCEPT !.loc = (n :> v) @@ @]
Exec(S, c, env, b) ==
  IF b = <<>> THEN <<>>
  ELSE LET i == Head(b) IN
       IF i[1] \in {"var", "param"}
       THEN LET v == IF i[1] = "param" /\ i[2] \in DOMAIN env.pass THEN env.pass[i[2]] ELSE VarVal(S, c, env, i[3], i[4]) IN
            IF Bad(v) THEN BadItem(v) ELSE Exec(S, c, Bind(env, i[2], v), Tail(b))
       ELSE LET r == Ins(S, c, env, i) IN IF BadIn(r) THEN r ELSE r \o Exec(S, c, env, Tail(b))
Ins(S, c, env, i) ==
  CASE i[1] = "text" -> <<<<"t", i[2]>>>>
    [] i[1] = "val" -> LET v == EvalS(S, c, env, i[2]) IN IF Bad(v) THEN BadItem(v) ELSE <<<<"t", v.v>>>>
    [] i[1] = "apply" ->        \* select, mode, sorts, with-params
         LET v == IF i[2] = <<>> THEN VNS(Axis(S.D, c.n, "child")) ELSE EvalX(S, c, env, i[2][1]) IN
         IF Bad(v) THEN BadItem(v)
         ELSE LET ns == Sorted(S, c, env, Up(v.v), i[4]) IN
              IF ns = <<0>> THEN <<XTop>> ELSE IF ns = <<-1>> THEN <<XErr>>
              ELSE ApplySeq(S, ns, i[3], Passed(S, c, env, i[5]))
    [] i[1] = "imports" -> IF ~env.rule THEN <<XErr>> ELSE ApplyOne(S, c, env.mode, {r \in DOMAIN S.rules : Below(env.path, S.rules[r].path)}, <<>>)
    [] i[1] = "call" -> IF i[2] \notin DOMAIN S.named THEN <<XErr>>
                        ELSE Exec(S, c, [env EXCEPT !.loc = <<>>, !.pass = Passed(S, c, env, i[3])], S.named[i[2]])
    [] i[1] = "for" ->
         LET v == EvalX(S, c, env, i[2]) IN
         IF Bad(v) THEN BadItem(v)
         ELSE LET ns == Sorted(S, c, env, Up(v.v), i[3]) IN
              IF ns = <<0>> THEN <<XTop>> ELSE IF ns = <<-1>> THEN <<XErr>>
              ELSE XConcat([j \in DOMAIN ns |-> Exec(S, [n |-> ns[j], p |-> j, l |-> Len(ns)], [env EXCEPT !.rule = FALSE], i[4])])
    [] i[1] = "if" -> LET v == EvalB(S, c, env, i[2]) IN
         IF Bad(v) THEN BadItem(v) ELSE IF v.v THEN Exec(S, c, env, i[3]) ELSE <<>>
    [] i[1] = "choose" ->
         IF i[2] = <<>> THEN (IF i[3] = <<>> THEN <<>> ELSE Exec(S, c, env, i[3][1]))
         ELSE LET w == Head(i[2])  v == EvalB(S, c, env, w[1]) IN
              IF Bad(v) THEN BadItem(v)
              ELSE IF v.v THEN Exec(S, c, env, w[2]) ELSE Ins(S, c, env, <<"choose", Tail(i[2]), i[3]>>)
    [] i[1] = "copyof" ->
         LET v == EvalX(S, c, env, i[2]) IN
         IF Bad(v) THEN BadItem(v)
         ELSE IF v.t = "rtf" THEN v.items
         ELSE IF v.t = "ns" THEN LET ns == Up(v.v) IN XConcat([j \in DOMAIN ns |-> DeepCopy(S.D, ns[j])])
         ELSE LET s == ToS(S.D, v) IN IF Bad(s) THEN BadItem(s) ELSE <<<<"t", s.v>>>>
    [] i[1] = "copy" ->
         LET y == S.D.x[c.n] IN
         IF y.t = "root" THEN Exec(S, c, env, i[2])
         ELSE IF y.t = "elem" /\ ~S.building THEN <<>>
         ELSE IF y.t = "elem" THEN LET is == Exec(S, c, env, i[2]) IN IF BadIn(is) THEN TheBad(is) ELSE <<MkElem(y.ns, y.ln, is)>>
         ELSE DeepCopy(S.D, c.n)
    [] i[1] = "lre" /\ ~S.building -> <<>>
    [] i[1] = "lre" ->          \* ns, local name, attributes, body
         LET as == [j \in DOMAIN i[4] |-> AVT(S, c, env, i[4][j][3])]
             is == Exec(S, c, env, i[5])
         IN IF \E j \in DOMAIN as : Bad(as[j]) THEN BadItem(as[CHOOSE j \in DOMAIN as : Bad(as[j])])
            ELSE IF BadIn(is) THEN TheBad(is)
            ELSE <<MkElem(i[2], i[3], [j \in DOMAIN as |-> <<"a", i[4][j][1], i[4][j][2], as[j].v>>] \o is)>>
    [] i[1] \in {"elem", "attr"} ->        \* name, namespace, prefixes in scope, body
         LET nm == AVT(S, c, env, i[2])
             nsv == IF i[3] = <<>> THEN VS("") ELSE AVT(S, c, env, i[3][1])
             is == IF i[1] = "elem" /\ ~S.building THEN <<>> ELSE Exec(Building(S, i[1] = "elem"), c, env, i[5])
         IN IF Bad(nm) THEN BadItem(nm) ELSE IF Bad(nsv) THEN BadItem(nsv)
            ELSE IF ~IsQN(nm.v) \/ (i[3] = <<>> /\ Prefix_(nm.v) /= "" /\ Prefix_(nm.v) \notin DOMAIN i[4]) THEN <<XErr>>
            ELSE IF BadIn(is) THEN TheBad(is)
            ELSE LET ns == IF i[3] /= <<>> THEN nsv.v
                           ELSE IF Prefix_(nm.v) = "" /\ (i[1] = "attr" \/ "" \notin DOMAIN i[4]) THEN ""
                           ELSE i[4][Prefix_(nm.v)]
                 IN IF i[1] = "elem" /\ ~S.building THEN <<>>
                    ELSE IF i[1] = "elem" THEN <<MkElem(ns, Local_(nm.v), is)>>
                    ELSE IF Deep(is, "err") THEN <<XErr>> ELSE IF Deep(is, "top") THEN <<XTop>>
                    ELSE <<<<"a", ns, Local_(nm.v), TextOf(is)>>>>
    [] i[1] \in {"comment", "msg"} ->
         LET is == Exec(Building(S, i[1] = "msg"), c, env, i[2]) IN
         IF Deep(is, "err") THEN <<XErr>> ELSE IF Deep(is, "top") THEN <<XTop>>
         ELSE IF i[1] = "comment" THEN <<<<"c", CommentText(TextOf(is))>>>>
         ELSE IF i[3] THEN <<XErr>> ELSE <<<<"m", AllText(Join(is))>>>>
    [] i[1] = "pi" ->
         LET nm == AVT(S, c, env, i[2])
             is == Exec(Building(S, FALSE), c, env, i[3])
         IN IF Bad(nm) THEN BadItem(nm)
            ELSE IF ~IsNC(nm.v) \/ nm.v \in {"xml", "XML", "Xml", "xMl", "xmL", "XMl", "XmL", "xML"} THEN <<XErr>>
            ELSE IF Deep(is, "err") THEN <<XErr>> ELSE IF Deep(is, "top") THEN <<XTop>>
            ELSE <<<<"p", nm.v, PIText(TextOf(is))>>>>

---------------------------------------------------------------------------
(* a stylesheet against a document *)
Load(M, D, passed) ==
  LET cs == TLCEval(Components(M))
      rules == TLCEval(Rules(cs))
      E0 == [D |-> D, vars |-> <<>>, cur |-> 0, keys |-> <<>>]
      N == DOMAIN D.x
      match == TLCEval([r \in DOMAIN rules |-> [n \in N |-> IF D.x[n].t = "ns" THEN "F" ELSE Matches(E0, n, rules[r].pat)]])
      kd == SelectSeq([i \in DOMAIN cs |-> cs[i].it], LAMBDA it : it.k = "key")
      used(k, n) == LET v == Eval([E0 EXCEPT !.cur = n], [n |-> n, p |-> 1, l |-> 1], k.use) IN
                    IF v.t = "top" THEN {} ELSE IF Nodes(v) THEN SVals(D, v) ELSE LET s == ToS(D, v) IN IF Bad(s) THEN {} ELSE {s.v}
      table(k) == UNION {{<<s, n>> : s \in used(k, n)} :
                           n \in {m \in N : D.x[m].t # "ns" /\ \E j \in DOMAIN k.match : Matches(E0, m, k.match[j]) = "T"}}
      keys == TLCEval([nm \in {kd[i].name : i \in DOMAIN kd} |-> UNION {table(kd[i]) : i \in {j \in DOMAIN kd : kd[j].name = nm}}])
      S0 == [D |-> D, rules |-> rules, match |-> match, named |-> Named_(cs), keys |-> keys, glob |-> Globals(cs),
             gv |-> <<>>, ready |-> FALSE, vis |-> {}, passed |-> passed, building |-> TRUE]
      gv == TLCEval([n \in DOMAIN S0.glob |-> GVal(S0, n)])
  IN [S0 EXCEPT !.gv = gv, !.ready = TRUE]
Run(M, D, passed) ==
  LET S == Load(M, D, passed) IN
  IF \E n \in DOMAIN S.gv : S.gv[n].t = "err" THEN <<XErr>>
  ELSE IF \E n \in DOMAIN S.gv : S.gv[n].t = "top" THEN <<XTop>>
  ELSE Join(ApplySeq(S, <<1>>, "", <<>>))
=============================================================================
