------------------------------ MODULE XPathMC ------------------------------
(* Laws of the XPath specification itself, over all small documents: the axes
   partition the tree and are inverse to one another, document order puts owners
   before what they own, patterns read right to left agree with their definition
   as paths, and the arithmetic, comparison and conversion rules cohere.        *)
EXTENDS XPath
CONSTANT N
CONSTANT Q
VARIABLES par, kind, D
(* node 1 is the document, 2 its element, the rest follow in preorder *)
RECURSIVE Ancs(_, _)
Ancs(p, i) == IF i = 0 THEN {} ELSE {i} \cup Ancs(p, p[i])
Kinds == {"a", "ax", "an", "t", "c"}
IsE(q) == q \in {"a", "ax", "an"}
Rec(t, p, k, a, nm, ns, ln, v) == [t |-> t, par |-> p, k |-> k, a |-> a, nm |-> nm, ns |-> ns, ln |-> ln, v |-> v]
Raw(p, kd) == LET K == Len(p)  KidsOf(i) == SetToSortSeq({j \in 1..K : p[j] = i}, <) IN
  [i \in 1..(2 * K) |->
   IF i > K THEN IF kd[i - K] = "an" THEN Rec("attr", 0, <<>>, <<>>, "xmlns:p", XMLNSNS, "p", "u")
                 ELSE Rec("attr", 0, <<>>, <<>>, "x", "", "x", "1")
   ELSE IF i = 1 THEN Rec("doc", 0, KidsOf(1), <<>>, "", "", "", "")
   ELSE IF IsE(kd[i]) THEN Rec("elem", p[i], KidsOf(i), IF kd[i] = "a" THEN <<>> ELSE <<K + i>>, "a", "", "a", "")
   ELSE Rec(IF kd[i] = "t" THEN "text" ELSE "comment", p[i], <<>>, <<>>, "", "", "", "1")]
Init == par = <<0>> /\ kind = <<"a">> /\ D = Prep(Raw(par, kind))
Next == /\ Len(par) < N
        /\ \E q \in Kinds, p \in Ancs(par, Len(par)) :
             /\ IF Len(par) = 1 THEN IsE(q) ELSE p > 1 /\ IsE(kind[p])
             /\ par' = Append(par, p) /\ kind' = Append(kind, q)
             /\ D' = TLCEval(Prep(Raw(par', kind')))
Spec == Init /\ [][Next]_<<par, kind, D>>
X == D.x
All == DOMAIN X
Trees == {n \in All : Tree(X, n)}
AxesAll == {"self", "child", "parent", "attribute", "namespace", "ancestor", "ancestor-or-self", "descendant", "descendant-or-self",
            "following-sibling", "preceding-sibling", "following", "preceding"}
A(n, ax) == Axis(D, n, ax)
Disjoint(s) == \A i, j \in DOMAIN s : i < j => s[i] \cap s[j] = {}
Inv_Partition == \A n \in All :
  LET s == <<{n} , A(n, "ancestor"), A(n, "descendant"), A(n, "following"), A(n, "preceding")>>
  IN Disjoint(s) /\ UNION RangeOf(s) = Trees \cup {n}
Inv_Inverse == \A n, m \in All :
  /\ m \in A(n, "child") => A(m, "parent") = {n}
  /\ Tree(X, m) => (m \in A(n, "descendant") <=> n \in A(m, "ancestor"))
  /\ Tree(X, n) /\ Tree(X, m) => /\ (m \in A(n, "following") <=> n \in A(m, "preceding"))
                                 /\ (m \in A(n, "following-sibling") <=> n \in A(m, "preceding-sibling"))
Inv_Order == /\ \A n \in All : X[n].par < n
             /\ \A n, m, q \in All : X[n].par = q /\ X[m].par = q /\ X[n].t = "ns" /\ X[m].t # "ns" => n < m
             /\ \A n, m \in All : X[n].t = "attr" /\ m \in A(X[n].par, "child") => n < m
             /\ \A n \in All : \A i \in A(n, "descendant") : \A j \in A(n, "following") : i < j
Over(S, ax) == UNION {A(n, ax) : n \in S}
Inv_Compose == \A n \in All :
  /\ A(n, "descendant") = A(n, "child") \cup Over(A(n, "child"), "descendant")
  /\ A(n, "following") = Over(Over(A(n, "ancestor-or-self"), "following-sibling"), "descendant-or-self")
                         \cup (IF Tree(X, n) THEN {} ELSE A(X[n].par, "descendant"))
  /\ A(n, "preceding") = Over(Over(A(n, "ancestor-or-self"), "preceding-sibling"), "descendant-or-self")
Inv_Attrs == \A n \in All : /\ A(n, "attribute") # {} => X[n].t = "elem"
                            /\ (A(n, "namespace") # {} <=> X[n].t = "elem")
                            /\ ~Tree(X, n) => A(n, "child") = {} /\ A(n, "following-sibling") = {}
(* string values, merged text *)
Inv_Text == \A n, m \in All : X[n].t = "text" /\ X[m].t = "text" /\ X[n].par = X[m].par /\ n < m => m # n + 1
(* patterns *)
St(ax, nt, pr) == [ax |-> ax, nt |-> nt, pr |-> pr]
Name(q) == <<"name", "", q>>
One == <<<<"num", "fin", 16>>>>
Lst == <<<<"fn", "last", <<>>>>>>
Pats == LET ts == {<<"node">>, <<"text">>, <<"star">>, Name("a")}
            prs == {<<>>, One, Lst}
            sts == {St("child", t, p) : t \in ts, p \in prs} \cup {St("attribute", <<"star">>, p) : p \in prs}
            gap == St("descendant-or-self", <<"node">>, <<>>)
        IN {<<"path", b, <<s>>>> : b \in BOOLEAN, s \in sts}
           \cup {<<"path", FALSE, <<St("child", Name("a"), One), s>>>> : s \in sts}
           \cup {<<"path", FALSE, <<St("child", <<"star">>, <<>>), gap, s>>>> : s \in sts}
           \cup {<<"path", TRUE, <<gap, s>>>> : s \in sts}
E == [D |-> D, vars |-> <<>>]
(* right to left: the node passes the last step among the nodes its parent would select, then its parent the rest *)
RECURSIVE RL(_, _, _)
RL(n, abs, sts) ==
  IF sts = <<>> THEN (~abs \/ X[n].t = "root")
  ELSE LET s == sts[Len(sts)]  rest == SubSeq(sts, 1, Len(sts) - 1) IN
       IF s.ax = "descendant-or-self" THEN \E m \in A(n, "ancestor-or-self") : RL(m, abs, rest)
       ELSE /\ X[n].par # 0 /\ n \in RangeOf(StepFrom(E, X[n].par, s)) /\ RL(X[n].par, abs, rest)
Inv_Pattern == Len(par) > Q \/ \A p \in Pats : \A n \in All : X[n].t # "ns" => (Matches(E, n, p) = "T") = RL(n, p[2], p[3])
(* arithmetic and conversions: no dependence on the document *)
Nums == {Fin(n) : n \in {-40, -24, -16, -8, -1, 0, 1, 8, 16, 24, 40, 160}} \cup {NaN, Inf, MInf, NZ}
Vals == {VN(n) : n \in Nums} \cup {VS(s) : s \in {"", "0", "1", " 2.5 ", "x", "-1"}} \cup {VB(TRUE), VB(FALSE)}
        \cup {VNS({}), VNS(All), VNS({1})}
Same(a, b) == (IsZero(a) /\ IsZero(b)) \/ a = b
ASSUME \A a \in Nums : Same(StrToNum(NumToStr(a)), IF IsInf(a) THEN NaN ELSE a)
ASSUME \A a \in Nums : Round(Round(a)) = Round(a) /\ Floor(Floor(a)) = Floor(a) /\ Ceil(Ceil(a)) = Ceil(a)
ASSUME \A a \in Nums : a.k = "fin" => Floor(a).n <= a.n /\ a.n < Floor(a).n + 16
                                      /\ (LET c == Ceil(a) IN c.n >= a.n /\ c.n < a.n + 16)
                                      /\ (LET r == Round(a) IN Abs(r.n - a.n) <= 8)
ASSUME \A a, b \in Nums : Add(a, b) = Add(b, a) /\ Mul(a, b) = Mul(b, a)
ASSUME \A a, b \in Nums : a.k = "fin" /\ b.k = "fin" /\ b.n # 0 =>
         LET m == Mod(a, b) IN Abs(m.n) < Abs(b.n) /\ (Abs(a.n) - Abs(m.n)) % Abs(b.n) = 0 /\ (m.n = 0 \/ (m.n < 0) = (a.n < 0))
CmpOps == {"=", "!=", "<", "<=", ">", ">="}
Inv_Compare == Len(par) > 2 \/ \A a, b \in Vals : \A op \in CmpOps :
  /\ Compare(D, op, a, b) = Compare(D, Flip(op), b, a)
  /\ (op = "!=" /\ a.t # "ns" /\ b.t # "ns" => (Compare(D, "=", a, b) = "T") # (Compare(D, op, a, b) = "T"))
  /\ (op = "<=" => (Compare(D, "<", a, b) = "T" => Compare(D, op, a, b) = "T"))
  /\ (a.t = "ns" /\ a.v = {} /\ b.t # "b" => Compare(D, op, a, b) = "F")
=============================================================================
