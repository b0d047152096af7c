------------------------------ MODULE SaxTrace ------------------------------
(* A line is one parse by a reader that may have been used before: how it is *)
(* set up, the document, and everything the handlers were told.              *)
EXTENDS Sax, Json, IOUtils
CONSTANT Backend
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
NoDup(s) == Cardinality(Range(s)) = Len(s)
(* as heard: sets for attributes and prefix mappings, refusing repetitions *)
Seen(e) == IF e[1] = "se" THEN (IF NoDup(e[5]) /\ NoDup([i \in 1..Len(e[5]) |-> e[5][i][3]]) THEN <<"se", e[2], e[3], e[4], Range(e[5])>> ELSE <<"repeated attribute", e>>)
           ELSE IF e[1] \in {"spm", "epm"} THEN (IF NoDup(Tail(e)) THEN <<e[1], Range(Tail(e))>> ELSE <<"repeated mapping", e>>)
           ELSE e
(* what a back end's parser never tells, so the reader cannot *)
Untold(e) == FALSE
Told(es) == SelectSeq(es, LAMBDA e : ~Untold(e))
Prefix(t, s) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
(* m: heard up to a failure, x: everything there was up to it; text just before may be held back *)
UpTo(m, x) == \/ m = x
              \/ x /= <<>> /\ x[Len(x)][1] = "ch" /\
                 (m = SubSeq(x, 1, Len(x) - 1) \/ (Len(m) = Len(x) /\ m[Len(m)][1] = "ch" /\ SubSeq(m, 1, Len(m) - 1) = SubSeq(x, 1, Len(x) - 1) /\ Prefix(m[Len(m)][2], x[Len(x)][2])))
FirstDiff(a, b) == LET ds == {i \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[i] /= b[i]}
                   IN IF ds = {} THEN IF Len(a) = Len(b) THEN 0 ELSE (IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) + 1 ELSE CHOOSE i \in ds : \A j \in ds : i <= j
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE <<"nothing">>
Report(what, want, got) == LET i == FirstDiff(want, got) IN <<what, "event", i, "specification", At(want, i), "reader", At(got, i)>>
Judge1(e) ==
  LET cfg == [ns |-> e.ns, px |-> e.px, hs |-> e.hs, ext |-> e.ext]
      got == Told([i \in 1..Len(e.ev) |-> Seen(e.ev[i])])
      want == Merge(Told(Expected(e.doc, cfg)), <<>>)
      bads == {i \in 1..Len(want) : want[i] = <<"bad">>}
      full == IF bads = {} THEN want ELSE SubSeq(want, 1, (CHOOSE i \in bads : \A j \in bads : i <= j) - 1)
      \* the handler that refuses the n-th start of an element
      ses == {i \in 1..Len(full) : full[i][1] = "se"}
      hit == {i \in ses : Cardinality({j \in ses : j <= i}) = e.at}
      fs == {i \in 1..Len(got) : got[i] = <<"fatal">>}
      nofatal == SelectSeq(got, LAMBDA x : x /= <<"fatal">>)
      isEd(s) == s /= <<>> /\ s[Len(s)] = <<"ed">>
      Cut(s) == IF isEd(s) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
  IN IF e.other /= "" THEN <<"exception", e.other>>
     ELSE IF hit /= {} THEN LET x == SubSeq(full, 1, CHOOSE i \in hit : TRUE) IN IF ~e.threw THEN <<"the handler's exception was lost">> ELSE IF got = x THEN <<>> ELSE Report("handler throws", x, got)
     ELSE IF e.threw THEN <<"exception, but there is no such element">>
     ELSE IF bads = {} THEN IF got = want THEN <<>> ELSE Report("well-formed", want, got)
     ELSE IF "e" \in Range(e.hs) /\ Cardinality(fs) /= 1 THEN <<"fatal errors reported", Cardinality(fs), nofatal>>
     ELSE IF fs /= {} /\ Cut(SubSeq(got, (CHOOSE i \in fs : TRUE) + 1, Len(got))) /= <<>> THEN <<"events after the fatal error", SubSeq(got, CHOOSE i \in fs : TRUE, Len(got))>>
     ELSE IF UpTo(Cut(nofatal), full) THEN <<>> ELSE Report("malformed", full, nofatal)
LANES == 16
Judge(i) == LET v == Judge1(Trace[i]) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"@@MISMATCH", i, v, "in", Trace[i].xml, Trace[i].hs, Trace[i].ns, Trace[i].px>>)
Init == l \in 1..(IF Len(Trace) < LANES THEN Len(Trace) ELSE LANES) /\ Judge(l)
Next == l + LANES <= Len(Trace) /\ l' = l + LANES /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
