---------------------------- MODULE HandlesTrace ----------------------------
EXTENDS Handles, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* st: slots, unowned and merged groups, numbers of groups and objects
RECURSIVE Walk(_, _, _)
Walk(ev, i, st) ==
  IF i > Len(ev) THEN <<>>
  ELSE LET e == ev[i]
           may == After(st.slots, st.unowned, st.groups, st.objs, e)
           ngr == Len(e.gr)
           into == {g \in st.unowned : e.gr[g][1] /= 0}                          \* document types now said to be elsewhere
           made == IF ngr = st.groups + 1 /\ e.op \in {"createDoctype", "cloneDoctype"} THEN {ngr} ELSE {}
           merged == st.merged \cup into
           gb == GroupsBad(e.sl, merged, e.gr)
           ob == ObjectsBad(e.sl, e.ob)
       IN IF e.sl \notin may THEN <<"step", i, e.op, e.res, "handles then", e.sl, "expected one of", may, "before", st.slots>>
          ELSE IF ngr > st.groups + 1 THEN <<"step", i, e.op, "nodes of an unknown document", ngr - st.groups>>
          ELSE IF gb /= {} THEN LET g == CHOOSE g \in gb : TRUE IN <<"step", i, e.op, e.res, "group", g, "<merged, alive, nodes seen, nodes left>", e.gr[g], "handles", e.sl>>
          ELSE IF ob /= {} THEN <<"step", i, e.op, "walkers", e.ob, "handles", e.sl>>
          ELSE Walk(ev, i + 1, [slots |-> e.sl, unowned |-> (st.unowned \cup made) \ into, merged |-> merged, groups |-> ngr, objs |-> Len(e.ob)])
Start == [slots |-> [i \in 1..6 |-> None], unowned |-> {}, merged |-> {}, groups |-> 0, objs |-> 0]
Verdict(h) ==
  LET v == Walk(h.ev, 1, Start)
      last == h.ev[Len(h.ev)]
  IN IF v /= <<>> THEN v
     ELSE IF \E i \in 1..6 : last.sl[i] /= None THEN <<"not at an end">>
     ELSE IF h.leak /= 0 THEN <<"bytes still allocated when every handle is gone", h.leak>>
     ELSE <<>>
LANES == 16
Judge(i) == LET v == Verdict(Trace[i]) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"@@MISMATCH", i, v>>)
Init == l \in 1..(IF Len(Trace) < LANES THEN Len(Trace) ELSE LANES) /\ Judge(l)
Next == l + LANES <= Len(Trace) /\ l' = l + LANES /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
