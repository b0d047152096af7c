----------------------------- MODULE AttsTrace -----------------------------
EXTENDS Atts, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Shows(s) ==
  [at |-> s, n |-> Len(s), past |-> <<"", "", "", "", "">>]
LookBad(s, o) ==
  IF [at |-> o.at, n |-> o.n, past |-> o.past] /= Shows(s) THEN <<"list", Shows(s), "library", o>>
  ELSE LET un == {k \in 1..Len(o.un) : LET q == o.un[k] i == First(Named(s, q[1], q[2]))
                                       IN <<q[3], q[4], q[5]>> /= <<i - 1, Get(s, i, Type), Get(s, i, Value)>>}
           qn == {k \in 1..Len(o.qn) : LET q == o.qn[k] i == First(Qualified(s, q[1]))
                                       IN <<q[2], q[3], q[4]>> /= <<i - 1, Get(s, i, Type), Get(s, i, Value)>>}
       IN IF un /= {} THEN <<"lookup by name in", s, o.un[CHOOSE k \in un : TRUE]>>
          ELSE IF qn /= {} THEN <<"lookup by qualified name in", s, o.qn[CHOOSE k \in qn : TRUE]>> ELSE <<>>
RECURSIVE Replay(_, _, _)
Replay(e, i, st) ==
  IF i > Len(e.ops) THEN <<>>
  ELSE LET o == e.ops[i]
           n == Apply(st[o.i], o.op, o.x, o.a, st[o.j])
           s2 == [st EXCEPT ![o.i] = n]
           b1 == LookBad(s2[1], e.obs[i][1])
           b2 == LookBad(s2[2], e.obs[i][2])
           bad == IF o.res /= (IF Valid(st[o.i], o.op, o.x) THEN "ok" ELSE "range") THEN <<"answered", o.res>>
                  ELSE IF b1 /= <<>> THEN b1 ELSE IF b2 /= <<>> THEN b2
                  ELSE IF e.obs[i][3] /= (s2[1] = s2[2]) THEN <<"comparison", e.obs[i][3]>> ELSE <<>>
       IN IF bad /= <<>> THEN <<"after call", i, o, bad>> ELSE Replay(e, i + 1, s2)
LANES == 16
Judge(i) == LET v == Replay(Trace[i], 1, <<<<>>, <<>>>>) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"@@MISMATCH", i, v>>)
Init == l \in 1..(IF Len(Trace) < LANES THEN Len(Trace) ELSE LANES) /\ Judge(l)
Next == l + LANES <= Len(Trace) /\ l' = l + LANES /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
