------------------------------ MODULE NsTrace ------------------------------
(* A line is a history of calls; what the class shows is recorded after every *)
(* call from number `from` on.                                               *)
EXTENDS NsSupport, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(st, op) ==
  CASE op[1] = "push" -> Push(st)
    [] op[1] = "pop" -> Pop(st)
    [] op[1] = "reset" -> Base
    [] op[1] = "declare" -> Declare(st, op[2], op[3])
ToSet(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
NameOf(st, n, attr) ==   \* n = [prefix, local] or <<"!">> for something that is not a qualified name
  IF n = <<"!">> THEN <<"!">>
  ELSE <<IF n[1] = "" /\ attr THEN "" ELSE Uri(st, n[1]), n[2], n[1], IF n[1] = "" THEN n[2] ELSE n[1] \o ":" \o n[2]>>
Obs(e, st, o) ==
  IF \E i \in 1..Len(e.pfx) : o.uri[i] /= Uri(st, e.pfx[i]) THEN <<"getURI", [i \in 1..Len(e.pfx) |-> Uri(st, e.pfx[i])], o.uri>>
  ELSE IF \E i \in 1..Len(e.uris) : o.one[i] \notin PrefixFor(st, e.uris[i]) THEN <<"getPrefix", [i \in 1..Len(e.uris) |-> PrefixFor(st, e.uris[i])], o.one>>
  ELSE IF ~NoDup(o.all) \/ ToSet(o.all) /= Prefixes(st) THEN <<"getPrefixes", Prefixes(st), o.all>>
  ELSE IF \E i \in 1..Len(e.uris) : ~NoDup(o.by[i]) \/ ToSet(o.by[i]) /= PrefixesFor(st, e.uris[i]) THEN <<"getPrefixes(uri)", [i \in 1..Len(e.uris) |-> PrefixesFor(st, e.uris[i])], o.by>>
  ELSE IF ~NoDup(o.decl) \/ ToSet(o.decl) /= Declared(st) THEN <<"getDeclaredPrefixes", Declared(st), o.decl>>
  ELSE IF \E i \in 1..Len(e.names) : o.el[i] /= NameOf(st, e.names[i], FALSE) THEN <<"processName element", [i \in 1..Len(e.names) |-> NameOf(st, e.names[i], FALSE)], o.el>>
  ELSE IF \E i \in 1..Len(e.names) : o.at[i] /= NameOf(st, e.names[i], TRUE) THEN <<"processName attribute", [i \in 1..Len(e.names) |-> NameOf(st, e.names[i], TRUE)], o.at>>
  ELSE <<>>
RECURSIVE Replay(_, _, _)
Replay(e, i, st) ==
  IF i > Len(e.ops) THEN <<>>
  ELSE LET op == e.ops[i]
           s2 == Step(st, op)
           bad == IF op[1] = "declare" /\ op[4] /= (IF op[2] \in {"xml", "xmlns"} THEN "no" ELSE "yes") THEN <<"declarePrefix answered", op>>
                  ELSE IF i < e.from THEN <<>> ELSE Obs(e, s2, e.obs[i - e.from + 1])
       IN IF bad /= <<>> THEN <<"after call", i, op, bad>> ELSE Replay(e, i + 1, s2)
LANES == 16
Judge(i) == LET v == Replay(Trace[i], 1, Base) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"@@MISMATCH", i, v>>)
Init == l \in 1..(IF Len(Trace) < LANES THEN Len(Trace) ELSE LANES) /\ Judge(l)
Next == l + LANES <= Len(Trace) /\ l' = l + LANES /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
