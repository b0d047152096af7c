------------------------------ MODULE DomTrace ------------------------------
(* Trace validation: executions of the real DOM, recorded by                *)
(* harness/dom_driver.cpp, against Dom.  Each trace starts with an "init"   *)
(* (or "load") line; all traces of the file are checked as independent      *)
(* behaviours.  A line is accepted iff the outcome (exception / result),    *)
(* every row the API shows of every node, and every live list are the ones  *)
(* the specification computes.                                              *)
EXTENDS Dom, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Trace) : Trace[i].e = "init"}

VARIABLES l, st, bad
vars == <<l, st, bad>>

\* logged rows -> state (for "init" lines and for adopting a part-way failed fragment operation)
NodeOf(r, ro) ==
  IF r.ty = "dead" THEN [Blank EXCEPT !.ty = "dead"]
  ELSE [ty |-> r.ty, nm |-> r.nm, ns |-> r.ns, hns |-> r.hns, pf |-> r.pf, ln |-> r.ln,
        val |-> IF r.ty = "attr" THEN "" ELSE r.val, par |-> r.par, kids |-> r.kids,
        doc |-> r.doc, ro |-> ro, att |-> r.att, own |-> r.own, sp |-> r.sp]
FixDoc(n) == [i \in 1..Len(n) |-> IF n[i].ty = "doc" THEN [n[i] EXCEPT !.doc = i] ELSE n[i]]
LogRow(r) == IF r.ty = "dead" THEN [ty |-> "dead"] ELSE [r EXCEPT !.att = SeqSet(r.att)]

InitState(E) ==
  [n |-> FixDoc([i \in 1..Len(E.d) |-> NodeOf(E.d[i][2], i \in SeqSet(E.ro))]), dtd |-> E.dtd, lists |-> <<>>]

\* <<the logged row of node i>>, or <<>> when it did not change
Delta(E, i) == LET k == {j \in 1..Len(E.d) : E.d[j][1] = i} IN IF k = {} THEN <<>> ELSE <<E.d[CHOOSE j \in k : TRUE][2]>>

\* rows agree: changed rows as logged, others unchanged
BadRows(s0, s1, E) ==
  {i \in 1..Len(s1.n) :
     LET d == Delta(E, i) IN
     IF d = <<>> THEN i > Len(s0.n) \/ Row(s1, i) # Row(s0, i)
     ELSE Row(s1, i) # LogRow(d[1])}
  \cup {i \in {E.d[j][1] : j \in 1..Len(E.d)} : i > Len(s1.n)}
BadLists(s1, E) == {i \in 1..Len(s1.lists) : Len(E.l) < i \/ E.l[i] # ListItems(s1, s1.lists[i])}

\* keep the API's attribute order (order in a NamedNodeMap is unspecified; ids of later copies follow it)
AdoptAttOrder(s1, E) ==
  [s1 EXCEPT !.n = [i \in 1..Len(s1.n) |-> LET d == Delta(E, i) IN
                      IF d = <<>> \/ s1.n[i].ty = "dead" THEN s1.n[i] ELSE [s1.n[i] EXCEPT !.att = d[1].att]]]

Adopt(s0, E) ==
  [s0 EXCEPT !.n = FixDoc([i \in 1..Len(s0.n) |-> LET d == Delta(E, i) IN IF d = <<>> THEN s0.n[i] ELSE NodeOf(d[1], s0.n[i].ro)])]

Report(k, E, what, info) == PrintT(<<"@@MISMATCH", k, E.e, E.a, E.s, "code", E.x, E.r, what, info>>)
Reject(k, E, what, info) == IF Report(k, E, what, info) THEN [ok |-> FALSE, st |-> st] ELSE [ok |-> FALSE, st |-> st]

Check(k) ==   \* line k against the current state: [ok, st]
  LET E == Trace[k]
      x == Apply(st, E.e, E.a, E.s) IN
  IF E.e = "byid"
  THEN IF E.x = "" /\ E.r \in IdResults(st, E.a[1], E.s[1]) /\ BadRows(st, st, E) = {} /\ BadLists(st, E) = {}
       THEN [ok |-> TRUE, st |-> st]
       ELSE Reject(k, E, "getElementById allows", IdResults(st, E.a[1], E.s[1]))
  ELSE IF E.x = "" /\ x.ex # {} THEN Reject(k, E, "should have been refused with", x.ex)
  ELSE IF E.x # "" /\ E.x \notin x.ex THEN Reject(k, E, "refused, specification allows", IF x.ex = {} THEN {"success"} ELSE x.ex)
  ELSE IF x.loose
  THEN LET s1 == Adopt(st, E) IN
       IF TreeOK(s1) /\ BadRows(st, s1, E) = {} THEN [ok |-> TRUE, st |-> s1]
       ELSE Reject(k, E, "inconsistent tree after failed fragment operation", BadRows(st, s1, E))
  ELSE LET br == BadRows(st, x.st, E)
           bl == BadLists(x.st, E)
           res == E.x # "" \/ (E.r = x.ret /\ E.v = StrResult(st, E.e, E.a, E.s))
       IN IF br = {} /\ bl = {} /\ res THEN [ok |-> TRUE, st |-> AdoptAttOrder(x.st, E)]
          ELSE Reject(k, E, "differs in result/rows/lists",
                      <<IF res THEN <<>> ELSE <<"result should be", x.ret, StrResult(st, E.e, E.a, E.s), "was", E.v>>,
                        {<<i, IF i <= Len(x.st.n) THEN Row(x.st, i) ELSE "no such node", Delta(E, i)>> : i \in br},
                        {<<i, ListItems(x.st, x.st.lists[i]), IF i <= Len(E.l) THEN E.l[i] ELSE "?">> : i \in bl}>>)

\* An init line with a field "n" is followed by n alternative steps, each taken from that same state
\* (the exhaustive small-scope runs); otherwise by a sequence of steps.
Init == \E i \in Starts : l = i + 1 /\ st = InitState(Trace[i]) /\ bad = ~(TreeOK(InitState(Trace[i])))
Branches == l > 1 /\ Trace[l-1].e = "init" /\ "n" \in DOMAIN Trace[l-1]
Next == /\ ~bad
        /\ l > 0 /\ l <= Len(Trace) /\ Trace[l].e # "init"
        /\ IF Branches
           THEN \E k \in l..(l + Trace[l-1].n - 1) :
                  LET c == Check(k) IN st' = c.st /\ bad' = ~c.ok /\ l' = -k
           ELSE LET c == Check(l) IN st' = c.st /\ bad' = ~c.ok /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == ~bad
StateOK == TreeOK(st)
TraceView == <<l, bad>>
=============================================================================
