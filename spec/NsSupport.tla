----------------------------- MODULE NsSupport -----------------------------
(* A stack of namespace contexts. A context is a function from the prefixes   *)
(* declared in it to URIs. The base context holds only xml.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
XMLURI == "http://www.w3.org/XML/1998/namespace"
Base == <<("xml" :> XMLURI)>>
Top(st) == st[Len(st)]
Declare(st, p, u) == IF p \in {"xml", "xmlns"} THEN st
                     ELSE [st EXCEPT ![Len(st)] = [q \in DOMAIN Top(st) \cup {p} |-> IF q = p THEN u ELSE Top(st)[q]]]
Push(st) == Append(st, <<>>)
Pop(st) == SubSeq(st, 1, Len(st) - 1)

(* what is in scope: inner declarations hide outer ones *)
InScope(st) ==
  LET dom == UNION {DOMAIN st[i] : i \in 1..Len(st)}
      at(p) == CHOOSE i \in 1..Len(st) : p \in DOMAIN st[i] /\ \A j \in (i+1)..Len(st) : p \notin DOMAIN st[j]
  IN [p \in dom |-> st[at(p)][p]]
Uri(st, p) == LET m == InScope(st) IN IF p \in DOMAIN m THEN m[p] ELSE ""
Prefixes(st) == DOMAIN InScope(st) \ {""}
PrefixesFor(st, u) == {p \in Prefixes(st) : InScope(st)[p] = u}
PrefixFor(st, u) == IF PrefixesFor(st, u) = {} THEN {""} ELSE PrefixesFor(st, u)
Declared(st) == DOMAIN Top(st)
=============================================================================
