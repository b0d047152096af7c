------------------------------- MODULE UriMC -------------------------------
(* Design check: the laws of reference resolution over all small references. *)
EXTENDS Uri, FiniteSets
CONSTANT MAXSEG
VARIABLES b, r
Seg == {"", ".", "..", "a"}
SegSeqs == UNION {[1..n -> Seg] : n \in 0..MAXSEG}
NoInnerEmpty(s) == \A i \in 1..Len(s) : s[i] = "" => i = Len(s) /\ Len(s) > 1
Paths == {[abs |-> TRUE, segs |-> s] : s \in {x \in SegSeqs : x /= <<>>}} \cup {[abs |-> FALSE, segs |-> s] : s \in {x \in SegSeqs : NoInnerEmpty(x)}}
Ref(sc, au, p, q, f) == [scheme |-> sc, auth |-> au, abs |-> p.abs, segs |-> p.segs, query |-> q, frag |-> f]
Legal(u) == /\ (u.auth /= <<>> => u.abs \/ u.segs = <<>>)
            /\ (u.abs /\ u.auth = <<>> => \A i \in 1..Len(u.segs) : u.segs[i] = "" => i = Len(u.segs))
Bases == {u \in {Ref("http", au, p, q, <<>>) : au \in {<<"h", "">>}, p \in Paths, q \in {<<>>, <<"q">>}} : Legal(u)}
Refs == {u \in {Ref(sc, au, p, q, f) : sc \in {"", "http", "urn"}, au \in {<<>>, <<"g", "8">>}, p \in Paths, q \in {<<>>, <<"r">>}, f \in {<<>>, <<"f">>}} : Legal(u)}
Init == b \in Bases /\ r \in Refs
Next == FALSE /\ UNCHANGED <<b, r>>
Spec == Init /\ [][Next]_<<b, r>>
T == Resolve(b, r)
NoDots(u) == u.abs => \A i \in 1..Len(u.segs) : u.segs[i] \notin {".", ".."}
Law_NoDots == (~IsEmpty(r) /\ ~EmptyPath(r)) => NoDots(T)
Law_Absolute == Fits(b, r) => T.scheme = "http" /\ (T.auth /= <<>>) /\ (T.abs \/ EmptyPath(T) \/ IsAbs(r))
Law_Idempotent == (NoDots(T) /\ T.auth /= <<>>) => Resolve(b, T) = T
Law_Self == Resolve(T, [r EXCEPT !.scheme = "", !.auth = <<>>, !.abs = FALSE, !.segs = <<>>, !.query = <<>>, !.frag = <<"z">>]) = [T EXCEPT !.frag = <<"z">>]
Law_Fragment == ~IsEmpty(r) => T.frag = r.frag
=============================================================================
