------------------------------ MODULE DomIoMC ------------------------------
(* Every small tree of namespaced names, as DOM calls can make it whatever   *)
(* its prefixes say: what the writer of DomIo.tla writes means, by the       *)
(* namespace rules of Sax.tla, the same tree; and no declaration is made     *)
(* twice.                                                                    *)
EXTENDS DomIo
CONSTANTS URIS, PFX
VARIABLES tree, size
Nm(u, p) == <<u, IF u = "" THEN "" ELSE p, "n">>
Names == {Nm(u, p) : u \in URIS, p \in PFX}
ANames == {<<u, IF u = "" THEN "" ELSE p, lc>> : u \in URIS, p \in PFX, lc \in {"x", "y"}}
AttSeqs == {<<>>} \cup {<<[nm |-> a, v |-> "1"]>> : a \in {x \in ANames : x[3] = "x"}}
           \cup {<<[nm |-> a, v |-> "1"], [nm |-> b, v |-> "2"]>> : a \in {x \in ANames : x[3] = "x"}, b \in {x \in ANames : x[3] = "y"}}
El(nm, at, ch) == [k |-> "el", nm |-> nm, at |-> at, ch |-> ch]
Init == size = 1 /\ tree \in {El(nm, at, <<>>) : nm \in Names, at \in AttSeqs}
Next == /\ size < 2 /\ size' = size + 1
        /\ \E nm \in Names, at \in AttSeqs : tree' = El(nm, at, <<tree>>)
Spec == Init /\ [][Next]_<<tree, size>>
NoDoc == [dtd |-> FALSE, items |-> <<>>]
Read(n) == Evs(NoDoc, [ns |-> TRUE, px |-> FALSE, ext |-> FALSE], BaseScope, <<Written(BaseScope, n)>>)
Shape(es) == LET ks == SelectSeq(es, LAMBDA e : e[1] \in {"se", "ee", "ch"}) IN
  [i \in 1..Len(ks) |-> CASE ks[i][1] = "se" -> <<"se", ks[i][2], ks[i][3], {<<a[1], a[2], a[4]>> : a \in ks[i][5]}>>
                          [] ks[i][1] = "ee" -> <<"ee">> [] OTHER -> ks[i]]
Law_RoundTrip == Shape(Read(tree)) = Meant(tree)
RECURSIVE WellFormed(_, _)
WellFormed(sc, n) == LET as == n.at s2 == Extend(sc, Range(as)) IN
  /\ \A i, j \in 1..Len(as) : i /= j => as[i].q /= as[j].q
  /\ n.q[1] /= "" => n.q[1] \in DOMAIN s2
  /\ \A i \in 1..Len(as) : as[i].q[1] \notin {"", "xmlns"} => as[i].q[1] \in DOMAIN s2
  /\ \A i \in 1..Len(as) : as[i].q[1] = "xmlns" => as[i].v[1][2] /= ""      \* a prefix cannot be undeclared
  /\ \A i \in 1..Len(n.ch) : WellFormed(s2, n.ch[i])
Law_WellFormed == WellFormed(BaseScope, Written(BaseScope, tree))
=============================================================================
