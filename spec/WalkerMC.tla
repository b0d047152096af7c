------------------------------ MODULE WalkerMC ------------------------------
(* Design check: all trees of up to N nodes, all labellings, a walker moving  *)
(* arbitrarily from the root.                                                 *)
EXTENDS Walker
CONSTANT N
VARIABLES par, lab, cur, rootn

Trees(k) == {p \in [1..k -> 0..k] : p[1] = 0 /\ \A i \in 2..k : p[i] >= 1 /\ p[i] < i
              /\ (p[i] = i - 1 \/ p[i] \in AncsOf(p, i - 1))}     \* preorder numbering
Init == /\ \E k \in 1..N : par \in Trees(k)
        /\ lab \in [1..Len(par) -> {ACCEPT, REJECT, SKIP}]
        /\ rootn \in {1} \cup (IF Len(par) > 2 THEN {2} ELSE {})
        /\ cur = rootn
Step(op) == /\ \E m \in Moves(op, par, lab, {}, rootn, cur) : cur' = IF m = 0 THEN cur ELSE m
            /\ UNCHANGED <<par, lab, rootn>>
Next == \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_<<par, lab, cur, rootn>>

(* the walker never leaves the root and never shows what is hidden *)
Shown == {n \in InRoot(par, rootn) : lab[n] = ACCEPT /\ \A x \in Between(par, rootn, n) : lab[x] /= REJECT}
Inv_Inside == cur \in InRoot(par, rootn)
Inv_Shown == cur = rootn \/ cur \in Shown
(* forward then back: the same nodes in reverse *)
Inv_Retrace ==
  LET n == NextN(par, lab, {}, rootn, cur)
  IN n /= 0 => LET p == PrevN(par, lab, {}, rootn, n) IN IF lab[cur] = ACCEPT THEN p = cur ELSE p = 0
(* forward visits all and only what is shown *)
RECURSIVE Run(_)
Run(c) == LET n == NextN(par, lab, {}, rootn, c) IN IF n = 0 THEN {} ELSE {n} \cup Run(n)
Inv_Complete == Run(rootn) = Shown \ {rootn}
(* the logical tree is a tree: parent and children are inverse, siblings share their parent *)
Inv_Kids == lab[rootn] = ACCEPT => \A k \in VisKids(par, lab, {}, rootn, cur) : ParentN(par, lab, {}, rootn, k) = cur
Inv_Sibs == \A s \in NextSibS(par, lab, {}, rootn, cur) :
              s /= 0 => /\ ParentN(par, lab, {}, rootn, s) = ParentN(par, lab, {}, rootn, cur)
                        /\ cur \in Shown => cur \in PrevSibS(par, lab, {}, rootn, s)
Inv_Det == cur \in Shown => Cardinality(NextSibS(par, lab, {}, rootn, cur)) = 1
=============================================================================
