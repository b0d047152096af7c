------------------------------- MODULE Walker -------------------------------
(* DOM Level 2 Traversal: TreeWalker. Nodes are numbered in document order, so *)
(* that parent[n] < n; 0 is "no node". A node's label is what mask and filter  *)
(* together say of it: 1 accept, 2 reject, 3 skip. Everything a walker shows   *)
(* is defined from the tree and the labels alone.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT ACCEPT, REJECT, SKIP

RECURSIVE AncsOf(_, _)
AncsOf(par, n) == IF n = 0 \/ par[n] = 0 THEN {} ELSE {par[n]} \cup AncsOf(par, par[n])
Below(par, a, n) == a \in AncsOf(par, n)
MinOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y

(* par: parents, lab: labels, hid: nodes hidden by not expanding entity references, r: root, c: current *)
InRoot(par, r) == {n \in 1..Len(par) : n = r \/ Below(par, r, n)}
Between(par, a, n) == {x \in AncsOf(par, n) : Below(par, a, x)}       \* strictly below a, strictly above n

ParentN(par, lab, hid, r, c) ==
  IF c = r THEN 0 ELSE MaxOf({a \in AncsOf(par, c) \cap InRoot(par, r) : lab[a] = ACCEPT})

VisKids(par, lab, hid, r, c) ==
  {n \in InRoot(par, r) \ hid : Below(par, c, n) /\ lab[n] = ACCEPT /\ \A x \in Between(par, c, n) : lab[x] = SKIP}
FirstChildN(par, lab, hid, r, c) == MinOf(VisKids(par, lab, hid, r, c))
LastChildN(par, lab, hid, r, c) == MaxOf(VisKids(par, lab, hid, r, c))

(* the siblings of c share its logical parent: the nearest ancestor not skipped, or the root *)
LogParents(par, lab, r, c) ==
  LET up == AncsOf(par, c) \cap InRoot(par, r)
      stopSkip == MaxOf({a \in up : a = r \/ lab[a] /= SKIP})
      stopAcc == MaxOf({a \in up : a = r \/ lab[a] = ACCEPT})
  IN {stopSkip, stopAcc}          \* differ only inside a rejected subtree, where DOM leaves it open
SibsUnder(par, lab, hid, r, c, p) ==
  {n \in InRoot(par, r) \ hid : Below(par, p, n) /\ n /= c /\ ~Below(par, c, n) /\ ~Below(par, n, c)
     /\ lab[n] = ACCEPT /\ \A x \in Between(par, p, n) \ AncsOf(par, c) : lab[x] = SKIP}
NextSibS(par, lab, hid, r, c) ==
  IF c = r THEN {0} ELSE {MinOf({n \in SibsUnder(par, lab, hid, r, c, p) : n > c}) : p \in LogParents(par, lab, r, c)}
PrevSibS(par, lab, hid, r, c) ==
  IF c = r THEN {0} ELSE {MaxOf({n \in SibsUnder(par, lab, hid, r, c, p) : n < c}) : p \in LogParents(par, lab, r, c)}

(* document order over everything accepted that is not inside something rejected; being inside *)
(* a rejected node already does not hide what is around the current node                       *)
Reachable(par, lab, hid, r, c) ==
  {n \in InRoot(par, r) \ hid : lab[n] = ACCEPT /\ \A x \in Between(par, r, n) : lab[x] = REJECT => x = c \/ x \in AncsOf(par, c)}
NextN(par, lab, hid, r, c) == MinOf({n \in Reachable(par, lab, hid, r, c) : n > c})
PrevN(par, lab, hid, r, c) ==
  IF c = r THEN 0 ELSE MaxOf({n \in Reachable(par, lab, hid, r, c) : n < c})

Ops == {"parentNode", "firstChild", "lastChild", "previousSibling", "nextSibling", "previousNode", "nextNode"}
(* the set of nodes the move may return; current becomes that node, or stays if 0 *)
Moves(op, par, lab, hid, r, c) ==
  CASE op = "parentNode" -> {ParentN(par, lab, hid, r, c)}
    [] op = "firstChild" -> {FirstChildN(par, lab, hid, r, c)}
    [] op = "lastChild" -> {LastChildN(par, lab, hid, r, c)}
    [] op = "nextSibling" -> NextSibS(par, lab, hid, r, c)
    [] op = "previousSibling" -> PrevSibS(par, lab, hid, r, c)
    [] op = "nextNode" -> {NextN(par, lab, hid, r, c)}
    [] op = "previousNode" -> {PrevN(par, lab, hid, r, c)}

(* what mask and filter make of a node: the filter is only asked about nodes of a shown kind *)
Label(show, kind, verdict) == IF kind \notin show THEN SKIP ELSE verdict
=============================================================================
