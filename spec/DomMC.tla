------------------------------- MODULE DomMC -------------------------------
(* Design check of Dom: every state reachable from a small stock of nodes   *)
(* by the structural mutators, and in each of them the laws of the tree and *)
(* of the derived operations (normalize, clone, lists).                     *)
EXTENDS Dom
VARIABLES st, variant, refused
vars == <<st, variant, refused>>

N(ty, nm, val, d) == [Blank EXCEPT !.ty = ty, !.nm = nm, !.val = val, !.doc = d]
Stock(v) ==
  [n |-> << N("doc", "#document", "", 1), N("elem", "a", "", 1), N("elem", "b", "", 1), N("text", "#text", "t", 1),
            CASE v = 0 -> N("frag", "#document-fragment", "", 1) [] v = 1 -> N("comment", "#comment", "c", 1)
              [] v = 2 -> N("attr", "k", "", 1) [] v = 3 -> N("text", "#text", "u", 1),
            N("elem", "o", "", 7), N("doc", "#document", "", 7) >>,
   dtd |-> <<>>, lists |-> <<>>]

Ops == \* <<event, int args>>
  {<<"app", <<p, c>>>> : p \in 1..5, c \in 1..6} \cup {<<"ins", <<p, c, r>>>> : p \in 1..5, c \in 1..6, r \in 1..5}
  \cup {<<"rep", <<p, c, r>>>> : p \in 1..5, c \in 1..6, r \in 1..5} \cup {<<"rem", <<p, c>>>> : p \in 1..5, c \in 1..6}
AttrOps == {<<"setan", <<e, 5>>>> : e \in 2..3} \cup {<<"reman", <<e, 5>>>> : e \in 2..3}

Init == variant \in 0..3 /\ st = Stock(variant) /\ refused = FALSE
Next == \E op \in Ops \cup (IF variant = 2 THEN AttrOps ELSE {}) :
          LET x == Apply(st, op[1], op[2], <<>>) IN
          /\ st' = x.st /\ refused' = (x.ex # {} /\ ~x.loose) /\ variant' = variant
Spec == Init /\ [][Next]_vars

\* ---- laws ----
Inv_Tree == TreeOK(st)
RefusedChangesNothing == [][refused' => st' = st]_vars

\* nodes are never lost or duplicated: every node is reachable from exactly one root
RECURSIVE Root(_, _)
Root(s, x) == IF s.n[x].par # 0 THEN Root(s, s.n[x].par) ELSE IF s.n[x].own # 0 THEN Root(s, s.n[x].own) ELSE x
Inv_Partition == \A x \in Live(st) : \A r \in Live(st) :
                   (Root(st, x) = r) <=> (Root(st, r) = r /\ x \in SeqSet(SeqSubtree(st, r)))
Inv_NoDup == \A r \in Live(st) : LET q == SeqSubtree(st, r) IN Cardinality(SeqSet(q)) = Len(q)

\* text of a subtree, in order
RECURSIVE TextOf(_, _)
RECURSIVE TextKids(_, _, _)
TextOf(s, x) == IF s.n[x].ty \in {"text", "cdata"} THEN s.n[x].val ELSE TextKids(s, x, 1)
TextKids(s, x, i) == IF i > Len(s.n[x].kids) THEN "" ELSE TextOf(s, s.n[x].kids[i]) \o TextKids(s, x, i + 1)
NormalForm(s, x) == \A p \in SeqSet(SeqSubtree(s, x)) : \A i \in 1..Len(s.n[p].kids) :
                      s.n[s.n[p].kids[i]].ty = "text" =>
                        /\ s.n[s.n[p].kids[i]].val # ""
                        /\ i < Len(s.n[p].kids) => s.n[s.n[p].kids[i+1]].ty # "text"
Inv_Normalize == \A x \in Live(st) : LET y == Normalize(st, x).st IN
                   /\ NormalForm(y, x) /\ TextOf(y, x) = TextOf(st, x) /\ TreeOK(y)
                   /\ Normalize(y, x).st = y
\* splitting any text anywhere and normalizing the parent gives the parent's normal form back
Inv_Split == \A x \in Live(st) : st.n[x].ty = "text" => \A o \in 0..Len(st.n[x].val) :
                LET z == SplitText(st, x, o).st  p == st.n[x].par IN
                /\ TreeOK(z)
                /\ p # 0 => TextOf(Normalize(z, p).st, p) = TextOf(st, p)
\* a clone is isomorphic, disjoint and leaves the original alone
RECURSIVE Iso(_, _, _)
Iso(s, a, b) == /\ s.n[a].ty = s.n[b].ty /\ s.n[a].nm = s.n[b].nm /\ s.n[a].val = s.n[b].val /\ s.n[a].ns = s.n[b].ns
                /\ Len(s.n[a].kids) = Len(s.n[b].kids)
                /\ \A i \in 1..Len(s.n[a].kids) : Iso(s, s.n[a].kids[i], s.n[b].kids[i])
                /\ Len(s.n[a].att) = Len(s.n[b].att)
                /\ \A i \in 1..Len(s.n[a].att) : Iso(s, s.n[a].att[i], s.n[b].att[i])
Inv_Clone == \A x \in Live(st) : st.n[x].ty # "doc" =>
               LET c == Clone(st, x, TRUE)  i == Import(st, 7, x, TRUE) IN
               /\ TreeOK(c.st) /\ Iso(c.st, x, c.ret) /\ SubSeq(c.st.n, 1, Len(st.n)) = st.n
               /\ SeqSet(SeqSubtree(c.st, c.ret)) \cap (1..Len(st.n)) = {}
               /\ TreeOK(i.st) /\ Iso(i.st, x, i.ret) /\ \A y \in SeqSet(SeqSubtree(i.st, i.ret)) : i.st.n[y].doc = 7
\* the list of elements by name is the document-order filter of the subtree
Elems(s, x) == SelectSeq(SeqSubtree(s, x), LAMBDA y : s.n[y].ty = "elem" /\ y # x)
Inv_Lists == \A x \in Live(st) : st.n[x].ty \in {"elem", "doc"} =>
               /\ ListItems(st, [root |-> x, kind |-> "tag", ns |-> "", nm |-> "*"]) = Elems(st, x)
               /\ ListItems(st, [root |-> x, kind |-> "tag", ns |-> "", nm |-> "a"]) = SelectSeq(Elems(st, x), LAMBDA y : st.n[y].nm = "a")
View == <<st, variant>>
=============================================================================
