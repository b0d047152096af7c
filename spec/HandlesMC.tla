----------------------------- MODULE HandlesMC -----------------------------
(* The library's way of doing it: counts of handles on documents, on document types without a document and on list objects,  *)
(* changed one call at a time; assignment counts the new target before it lets the old one go.                               *)
EXTENDS Handles
CONSTANTS S, D, L, T, MapsCount, AddFirst
\* references: <<kind, id>>; a list and a walker are objects of their own that hold a document
Nil == <<"nil", 0>>
VARIABLES slot, rc, owner, holds, dead, born, bad
vars == <<slot, rc, owner, holds, dead, born, bad>>
Objs == {<<"doc", d>> : d \in D} \cup {<<"list", x>> : x \in L} \cup {<<"dt", t>> : t \in T}
Init == /\ slot = [s \in S |-> Nil] /\ rc = [o \in Objs |-> 0] /\ owner = [t \in T |-> 0] /\ holds = [x \in L |-> 0]
        /\ dead = {} /\ born = {} /\ bad = FALSE
W(c) == [rc |-> c.rc, dead |-> c.dead, bad |-> c.bad]
Now == [rc |-> rc, dead |-> dead, bad |-> bad]
\* the objects that die with a document: the document types in it
Kill(w, o) == [w EXCEPT !.dead = @ \cup {o} \cup (IF o[1] = "doc" THEN {<<"dt", t>> : t \in {u \in T : owner[u] = o[2]}} ELSE {})]
Up1(w, o) == [w EXCEPT !.rc[o] = @ + 1, !.bad = @ \/ o \in w.dead]
Down1(w, o) == LET x == [w EXCEPT !.rc[o] = IF @ = 0 THEN 0 ELSE @ - 1, !.bad = @ \/ o \in w.dead \/ w.rc[o] = 0]
               IN IF w.rc[o] = 1 THEN Kill(x, o) ELSE x
\* addRef and releaseRef of what a handle points at
Counted(ref) == CASE ref[1] = "doc" -> {<<"doc", ref[2]>>}
                  [] ref[1] = "node" -> {<<"doc", ref[2]>>}
                  [] ref[1] = "dt" -> IF owner[ref[2]] /= 0 THEN {<<"doc", owner[ref[2]]>>} ELSE {<<"dt", ref[2]>>}
                  [] ref[1] = "map" -> IF owner[ref[2]] /= 0 THEN {<<"doc", owner[ref[2]]>>} ELSE IF MapsCount THEN {<<"dt", ref[2]>>} ELSE {}
                  [] OTHER -> {}
One(set) == CHOOSE x \in set : TRUE
Touch(w, ref) == IF ref[1] \in {"dt", "map"} /\ <<"dt", ref[2]>> \in w.dead THEN [w EXCEPT !.bad = TRUE] ELSE w
Add(w, ref) == IF ref[1] = "list" THEN Up1(Up1(w, <<"list", ref[2]>>), <<"doc", holds[ref[2]]>>)
               ELSE IF Counted(ref) = {} THEN Touch(w, ref) ELSE Up1(Touch(w, ref), One(Counted(ref)))
Rel(w, ref) == IF ref[1] = "list" THEN Down1(Down1(w, <<"doc", holds[ref[2]]>>), <<"list", ref[2]>>)
               ELSE IF Counted(ref) = {} THEN Touch(w, ref) ELSE Down1(Touch(w, ref), One(Counted(ref)))
SetImpl(w, old, new) == IF AddFirst THEN LET x == IF new = Nil THEN w ELSE Add(w, new) IN IF old = Nil THEN x ELSE Rel(x, old)
                        ELSE LET x == IF old = Nil THEN w ELSE Rel(w, old) IN IF new = Nil THEN x ELSE Add(x, new)
Assign(s, ref, made) == LET w == SetImpl(Now, slot[s], ref)
                        IN /\ slot' = [slot EXCEPT ![s] = ref] /\ rc' = w.rc /\ dead' = w.dead /\ bad' = w.bad /\ born' = born \cup made
DocOf(ref) == CASE ref[1] \in {"doc", "node"} -> ref[2]
                [] ref[1] \in {"dt", "map"} -> owner[ref[2]]
                [] ref[1] = "list" -> holds[ref[2]]
                [] OTHER -> 0
NewDoc == \E s \in S, d \in D : <<"doc", d>> \notin born /\ Assign(s, <<"doc", d>>, {<<"doc", d>>}) /\ UNCHANGED <<owner, holds>>
NewDt == \E s \in S, t \in T : <<"dt", t>> \notin born /\ Assign(s, <<"dt", t>>, {<<"dt", t>>}) /\ UNCHANGED <<owner, holds>>
Copy == \E s, t \in S : slot[t] /= Nil /\ Assign(s, slot[t], {}) /\ UNCHANGED <<owner, holds>>
Drop == \E s \in S : slot[s] /= Nil /\ Assign(s, Nil, {}) /\ UNCHANGED <<owner, holds>>
Get == \E s, t \in S : DocOf(slot[t]) /= 0 /\ \E k \in {"doc", "node"} : Assign(s, <<k, DocOf(slot[t])>>, {}) /\ UNCHANGED <<owner, holds>>
GetDt == \E s, t \in S, u \in T : DocOf(slot[t]) /= 0 /\ owner[u] = DocOf(slot[t]) /\ Assign(s, <<"dt", u>>, {}) /\ UNCHANGED <<owner, holds>>
GetMap == \E s, t \in S : slot[t][1] = "dt" /\ Assign(s, <<"map", slot[t][2]>>, {}) /\ UNCHANGED <<owner, holds>>
\* a list comes into being holding its document by the handles on it: set before the first count
NewList == \E s, t \in S, x \in L :
             /\ <<"list", x>> \notin born /\ DocOf(slot[t]) /= 0
             /\ holds' = [holds EXCEPT ![x] = DocOf(slot[t])]
             /\ LET up == Up1(Up1(Now, <<"list", x>>), <<"doc", DocOf(slot[t])>>)
                    w == IF slot[s] = Nil THEN up ELSE Rel(up, slot[s])
                IN /\ slot' = [slot EXCEPT ![s] = <<"list", x>>] /\ rc' = w.rc /\ dead' = w.dead /\ bad' = w.bad /\ born' = born \cup {<<"list", x>>}
             /\ UNCHANGED owner
\* the document type's count moves to the document
Adopt == \E s, t \in S : /\ slot[s][1] = "dt" /\ owner[slot[s][2]] = 0 /\ DocOf(slot[t]) /= 0
                         /\ owner' = [owner EXCEPT ![slot[s][2]] = DocOf(slot[t])]
                         /\ rc' = [rc EXCEPT ![<<"doc", DocOf(slot[t])>>] = @ + rc[<<"dt", slot[s][2]>>], ![<<"dt", slot[s][2]>>] = 0]
                         /\ UNCHANGED <<slot, holds, dead, born, bad>>
Next == NewDoc \/ NewDt \/ Copy \/ Drop \/ Get \/ GetDt \/ GetMap \/ NewList \/ Adopt
Spec == Init /\ [][Next]_vars
\* the abstract reading
Group(ref) == CASE ref = Nil -> 0
                [] DocOf(ref) /= 0 -> DocOf(ref)
                [] OTHER -> 100 + ref[2]
Slots == LET f == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i /= j => f[i] /= f[j]
         IN [i \in 1..Cardinality(S) |-> <<Group(slot[f[i]]), 0>>]
NoUseAfterFree == ~bad
DocsExactly == \A d \in D : <<"doc", d>> \in born => (<<"doc", d>> \in dead <=> ~Alive(Slots, d))
TypesExactly == \A t \in T : <<"dt", t>> \in born => (<<"dt", t>> \in dead <=> ~Alive(Slots, IF owner[t] /= 0 THEN owner[t] ELSE 100 + t))
ListsExactly == \A x \in L : <<"list", x>> \in born => (<<"list", x>> \in dead <=> \A s \in S : slot[s] /= <<"list", x>>)
Counts == \A d \in D : rc[<<"doc", d>>] = Cardinality({s \in S : DocOf(slot[s]) = d})
=============================================================================
