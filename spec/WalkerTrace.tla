---------------------------- MODULE WalkerTrace ----------------------------
EXTENDS Walker, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ToSet(s) == {s[i] : i \in 1..Len(s)}

HidOf(e) == IF e.expand THEN {} ELSE {n \in 1..Len(e.par) : \E a \in AncsOf(e.par, n) : e.kind[a] = 5}
LabOf(e) == [n \in 1..Len(e.par) |-> Label(ToSet(e.show), e.kind[n], e.lab[n])]
(* one walker, a series of moves: res[i] what move i returned, cur[i] current node afterwards *)
RECURSIVE Replay(_, _, _, _, _)
Replay(e, lab, hid, i, c) ==
  IF i > Len(e.ops) THEN <<>>
  ELSE LET adm == IF e.ops[i] = "set" THEN {e.res[i]} ELSE Moves(e.ops[i], e.par, lab, hid, e.root, c)
           r == e.res[i]
       IN IF r \notin adm \/ e.cur[i] /= (IF r = 0 THEN c ELSE r)
          THEN <<i, e.ops[i], "from", c, "specification", adm, "library", r, "current", e.cur[i]>>
          ELSE Replay(e, lab, hid, i + 1, IF r = 0 THEN c ELSE r)
Verdict(e) == Replay(e, LabOf(e), HidOf(e), 1, e.root)

(* lines are judged independently, in LANES parallel lanes *)
LANES == 16
Judge(i) == LET v == Verdict(Trace[i]) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"@@MISMATCH", i, v>>)
Init == l \in 1..(IF Len(Trace) < LANES THEN Len(Trace) ELSE LANES) /\ Judge(l)
Next == l + LANES <= Len(Trace) /\ l' = l + LANES /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
