------------------------------ MODULE UriTrace ------------------------------
EXTENDS Uri, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Shows(u) == [str |-> Str(u), scheme |-> u.scheme, host |-> Host(u), port |-> Port(u), path |-> FullPath(u), abs |-> IsAbs(u)]
(* base parsed and written, and the reference resolved against it *)
Verdict(e) ==
  IF e.base /= Shows(e.b) THEN <<"parsing the base", Shows(e.b), "library", e.base>>
  ELSE IF e.ref /= Shows(e.r) THEN <<"parsing the reference", Shows(e.r), "library", e.ref>>
  ELSE IF e.res /= Shows(Resolve(e.b, e.r)) THEN <<"resolving", Str(e.b), Str(e.r), "specification", Shows(Resolve(e.b, e.r)), "library", e.res>>
  ELSE IF ~e.stable THEN <<"copies, assignments or comparisons differ", e.base>>
  ELSE <<>>
LANES == 16
Judge(i) == LET v == Verdict(Trace[i]) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"@@MISMATCH", i, v>>)
Init == l \in 1..(IF Len(Trace) < LANES THEN Len(Trace) ELSE LANES) /\ Judge(l)
Next == l + LANES <= Len(Trace) /\ l' = l + LANES /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
