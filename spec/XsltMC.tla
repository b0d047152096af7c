------------------------------ MODULE XsltMC ------------------------------
(* Laws of the XSLT semantics itself: import precedence and inclusion over all small
   module graphs, the choice among rules, sorting, result construction, the text of
   comments and processing instructions, and what the built-in rules and the identity
   transformation make of every small document.                                     *)
EXTENDS Xslt
CONSTANTS NMods, NItems, NStr, NIts, NNodes, NKeys
VARIABLE st                    \* <<job, data>>
St(ax, nt) == [ax |-> ax, nt |-> nt, pr |-> <<>>]
Star == <<"star">>
PStar == <<"path", FALSE, <<St("child", Star)>>>>
PNode == <<"path", FALSE, <<St("child", <<"node">>)>>>>
PAtt == <<"path", FALSE, <<St("attribute", Star)>>>>
Tpl(pri, pats, body) == [k |-> "tpl", name |-> "", match |-> pats, mode |-> "", pri |-> pri, body |-> body]
---------------------------------------------------------------------------
(* jobs *)
M0 == [m \in 1..NMods |-> [items |-> <<>>]]
Count(M) == FoldLeft(LAMBDA a, m : a + Len(m.items), 0, M)
LastMod(M) == LET T == {m \in DOMAIN M : M[m].items # <<>>} IN IF T = {} THEN 1 ELSE CHOOSE m \in T : \A j \in T : j <= m
Adds(M, m) == {Tpl(p, ps, <<>>) : p \in {<<>>, <<2>>}, ps \in {<<PStar>>, <<PNode, PStar>>}}
              \cup {[k |-> "inc", m |-> j] : j \in (m + 1)..NMods}
              \cup (IF \A i \in DOMAIN M[m].items : M[m].items[i].k = "imp" THEN {[k |-> "imp", m |-> j] : j \in (m + 1)..NMods} ELSE {})
Chars == {"-", "?", ">", "a"}
ItemSet == {<<"a", "", "x", "1">>, <<"a", "", "x", "2">>, <<"a", "u", "x", "3">>, <<"t", "">>, <<"t", "p">>, <<"c", "q">>, <<"e", "", "z", <<>>, <<>>>>}
Kinds == {"a", "b", "t", "c"}
KeyVals == {<<s, n>> : s \in {"", "a", "B"}, n \in {[k |-> "nan", n |-> 0], Fin(0), Fin(16)}}
RECURSIVE Ancs(_, _)
Ancs(p, i) == IF i = 0 THEN {} ELSE {i} \cup Ancs(p, p[i])
Init == st \in {<<"mods", M0>>, <<"str", "">>, <<"items", <<>>>>, <<"doc", <<0>>, <<"a">>>>, <<"keys", <<>>>>}
Next ==
  \/ st[1] = "mods" /\ Count(st[2]) < NItems
     /\ \E m \in LastMod(st[2])..NMods : \E it \in Adds(st[2], m) : st' = <<"mods", [st[2] EXCEPT ![m].items = Append(@, it)]>>
  \/ st[1] = "str" /\ Len(st[2]) < NStr /\ \E ch \in Chars : st' = <<"str", st[2] \o ch>>
  \/ st[1] = "items" /\ Len(st[2]) < NIts /\ \E i \in ItemSet : st' = <<"items", Append(st[2], i)>>
  \/ st[1] = "keys" /\ Len(st[2]) < NKeys /\ \E k \in KeyVals : st' = <<"keys", Append(st[2], k)>>
  \/ st[1] = "doc" /\ Len(st[2]) < NNodes
     /\ \E q \in Kinds, p \in Ancs(st[2], Len(st[2])) :
          /\ IF Len(st[2]) = 1 THEN q = "a" ELSE p > 1 /\ st[3][p] \in {"a", "b"}
          /\ st' = <<"doc", Append(st[2], p), Append(st[3], q)>>
Spec == Init /\ [][Next]_st
Job(j) == st[1] = j
---------------------------------------------------------------------------
(* modules *)
Mods == st[2]
Inv_Precedence == Job("mods") =>
  LET o == Order(Mods, 1, <<>>) IN
  /\ o[Len(o)].path = <<>>
  /\ \A i, j \in DOMAIN o : /\ Below(o[i].path, o[j].path) => j < i
                            /\ i # j => o[i].path # o[j].path
                            /\ \A n \in 1..Len(o[i].path) :       \* the later of two imports, and all it imports, comes after the earlier
                                 /\ n <= Len(o[j].path)
                                 /\ SubSeq(o[i].path, 1, n - 1) = SubSeq(o[j].path, 1, n - 1)
                                 /\ o[i].path[n] < o[j].path[n]
                                 => i < j
(* writing an included module out in place of the inclusion changes nothing *)
NonImp(is) == SelectSeq(is, LAMBDA x : x.k # "imp")
Imp(is) == SelectSeq(is, LAMBDA x : x.k = "imp")
Splice(M, m, i) ==
  LET is == M[m].items  t == M[is[i].m].items IN
  [M EXCEPT ![m].items = Imp(is) \o Imp(t) \o NonImp(SubSeq(is, 1, i - 1)) \o NonImp(t) \o NonImp(SubSeq(is, i + 1, Len(is)))]
View(cs) == [i \in DOMAIN cs |-> <<cs[i].prec, cs[i].it>>]

Inv_Include == Job("mods") =>
  \A m \in DOMAIN Mods : \A i \in DOMAIN Mods[m].items :
    /\ Mods[m].items[i].k = "inc"
    /\ \A j \in 1..(i - 1) : Mods[m].items[j].k # "inc"                \* so that the imports keep their order
    => View(Components(Splice(Mods, m, i))) = View(Components(Mods))
Inv_Beats == Job("mods") =>
  LET rs == Rules(Components(Mods))
      B(i, j) == Beats(rs[i], rs[j])
      Same(i, j) == rs[i].pos = rs[j].pos /\ rs[i].pri = rs[j].pri     \* two alternatives of one template
  IN \A i, j \in DOMAIN rs : /\ ~(B(i, j) /\ B(j, i))
                             /\ i # j /\ ~B(i, j) /\ ~B(j, i) => Same(i, j)
                             /\ \A n \in DOMAIN rs : B(i, j) /\ B(j, n) => B(i, n)
                             /\ Below(rs[i].path, rs[j].path) => B(i, j)   \* so apply-imports always goes down
---------------------------------------------------------------------------
(* texts *)
RECURSIVE Squeeze(_)
Squeeze(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = " " THEN "" ELSE Ch(s, 1)) \o Squeeze(SubSeq(s, 2, Len(s)))
Inv_Comment == Job("str") => LET r == CommentText(st[2]) IN
  /\ Find(r, "--") = 0 /\ (r # "" => Ch(r, Len(r)) # "-") /\ Squeeze(r) = st[2]
  /\ CommentText(r) = r
Inv_PI == Job("str") => LET r == PIText(st[2]) IN Find(r, "?>") = 0 /\ Squeeze(r) = st[2] /\ PIText(r) = r
---------------------------------------------------------------------------
(* results *)
Its == st[2]
Inv_Element == Job("items") =>
  LET e == MkElem("", "e", Its)  kids == e[5]  atts == e[4] IN
  /\ \A i \in DOMAIN kids : kids[i][1] # "a" /\ kids[i] # <<"t", "">>
  /\ \A i \in 1..(Len(kids) - 1) : ~(kids[i][1] = "t" /\ kids[i + 1][1] = "t")
  /\ Join(kids) = kids
  /\ AllText(kids) = AllText(Its)
  /\ \A i \in DOMAIN Its : Its[i][1] = "a" =>
       LET before == \A j \in 1..(i - 1) : Its[j][1] = "a" \/ Its[j] = <<"t", "">>
           over == \E j \in (i + 1)..(FirstReal(Its) - 1) : Its[j][1] = "a" /\ Its[j][2] = Its[i][2] /\ Its[j][3] = Its[i][3]
       IN before /\ ~over <=> <<Its[i][2], Its[i][3]>> \in DOMAIN atts /\ atts[<<Its[i][2], Its[i][3]>>] = Its[i][4] /\ before /\ ~over
  /\ \A q \in DOMAIN atts : \E i \in DOMAIN Its : Its[i] = <<"a", q[1], q[2], atts[q]>>
  (* building in two steps is building in one, as long as the first is content *)
  /\ \A n \in 0..Len(Its) : FirstReal(Its) <= n => Join(Its) = Join(Join(SubSeq(Its, 1, n)) \o SubSeq(Its, n + 1, Len(Its)))
---------------------------------------------------------------------------
(* sorting *)
SortLists == {<<<<"k", num, d>>>> : num \in {FALSE}, d \in BOOLEAN} \cup {<<<<"k", FALSE, d>>, <<"k", TRUE, e>>>> : d, e \in BOOLEAN}
Inv_Compare == Job("keys") =>
  \A ss \in SortLists :
    LET C(a, b) == KeyCmp(ss, a, b)
        K == RangeOf(st[2])
    IN /\ \A a, b \in K : C(a, b) = -C(b, a) /\ C(a, a) = 0
       /\ \A a, b, d \in K : C(a, b) <= 0 /\ C(b, d) <= 0 => C(a, d) <= 0
       /\ \A a, b \in K : C(a, b) = 0 <=> a[1] = b[1] /\ (Len(ss) = 1 \/ a[2] = b[2])
---------------------------------------------------------------------------
(* documents *)
Rec(t, p, k, a, nm, v) == [t |-> t, par |-> p, k |-> k, a |-> a, nm |-> nm, ns |-> "", ln |-> nm, v |-> v]
Raw_(p, kd) == LET K == Len(p)  KidsOf(i) == SetToSortSeq({j \in 1..K : p[j] = i}, <) IN
  [i \in 1..(2 * K) |->
   IF i > K THEN Rec("attr", 0, <<>>, <<>>, "x", "1")
   ELSE IF i = 1 THEN Rec("doc", 0, KidsOf(1), <<>>, "", "")
   ELSE IF kd[i] \in {"a", "b"} THEN Rec("elem", p[i], KidsOf(i), IF kd[i] = "b" THEN <<>> ELSE <<K + i>>, kd[i], "")
   ELSE Rec(IF kd[i] = "t" THEN "text" ELSE "comment", p[i], <<>>, <<>>, "", "1")]
RECURSIVE Direct(_, _)         \* the document as a result tree, without going through the axes
Direct(R, i) ==
  LET kids == XConcat([j \in DOMAIN R[i].k |-> Direct(R, R[i].k[j])]) IN
  CASE R[i].t = "doc" -> Join(kids)
    [] R[i].t = "elem" -> <<<<"e", "", R[i].ln, IF R[i].a = <<>> THEN <<>> ELSE ((<<"", "x">>) :> "1"), Join(kids)>>>>
    [] R[i].t = "text" -> <<<<"t", R[i].v>>>>
    [] OTHER -> <<<<"c", R[i].v>>>>
Sel(ax, nt) == <<"path", FALSE, <<St(ax, nt)>>>>
Apply(sel) == <<"apply", sel, "", <<>>, <<>>>>
NoItems == [items |-> <<>>]
Identity == [items |-> <<Tpl(<<>>, <<PAtt, PNode>>, <<<<"copy", <<Apply(<<<<"bin", "|", Sel("attribute", Star), Sel("child", <<"node">>)>>>>)>>>>>>)>>]
CopyAll == [items |-> <<Tpl(<<>>, <<<<"path", TRUE, <<>>>>>>, <<<<"copyof", <<"path", FALSE, <<St("self", <<"node">>)>>>>>>>>)>>]

Inv_Doc == Job("doc") =>
  LET R == Raw_(st[2], st[3])  D == TLCEval(Prep(R))  src == Direct(R, 1) IN
  /\ Run(<<NoItems>>, D, <<>>) = (IF D.sv[1] = "" THEN <<>> ELSE <<<<"t", D.sv[1]>>>>)
  /\ Run(<<Identity>>, D, <<>>) = src
  /\ Run(<<CopyAll>>, D, <<>>) = src
(* visiting every node sorted: a permutation, in order, ties as in the document, and position() counts up *)
Inv_Sorted == Job("doc") =>
  LET R == Raw_(st[2], st[3])  D == TLCEval(Prep(R))
      S == Load(<<NoItems>>, D, <<>>)
      ns == Up({n \in DOMAIN D.x : D.x[n].t \in {"elem", "text", "attr"}})
      c == [n |-> 1, p |-> 1, l |-> 1]
      E1 == <<"fn", "name", <<>>>>
      E2 == <<"fn", "count", <<Sel("child", <<"node">>)>>>>
  IN \A d, e \in BOOLEAN :
       LET o == Sorted(S, c, NoEnv, ns, <<<<E2, TRUE, d>>, <<E1, FALSE, e>>>>)
           cnt(n) == Cardinality(Axis(D, n, "child"))
           nm(n) == D.x[n].nm
       IN /\ Len(o) = Len(ns) /\ RangeOf(o) = RangeOf(ns)
          /\ \A i, j \in DOMAIN o : i < j =>
               \/ (IF d THEN cnt(o[i]) > cnt(o[j]) ELSE cnt(o[i]) < cnt(o[j]))
               \/ cnt(o[i]) = cnt(o[j]) /\ nm(o[i]) # nm(o[j]) /\ StrCmp(nm(o[i]), nm(o[j])) = (IF e THEN 1 ELSE -1)
               \/ cnt(o[i]) = cnt(o[j]) /\ nm(o[i]) = nm(o[j]) /\ o[i] < o[j]
=============================================================================
