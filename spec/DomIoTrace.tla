----------------------------- MODULE DomIoTrace -----------------------------
(* A line is a document built by the DOM parser, or a DOM written and read   *)
(* back.                                                                     *)
EXTENDS DomIo, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
FirstDiff(a, b) == LET ds == {i \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[i] /= b[i]}
                   IN IF ds = {} THEN (IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) + 1 ELSE CHOOSE i \in ds : \A j \in ds : i <= j
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE <<"nothing">>
Report(what, want, got) == LET i == FirstDiff(want, got) IN <<what, "token", i, "specification", At(want, i), "library", At(got, i)>>
Doctypes(dom) == {i \in 1..Len(dom.ch) : dom.ch[i].k = "dt"}
JudgeBuild(e) ==
  IF e.other /= "" THEN <<"exception", e.other>>
  ELSE IF Malformed(e.doc, e.ext) THEN IF e.res \/ e.dom.k /= "none" THEN <<"malformed, but there is a document">> ELSE IF e.fatal /= 1 THEN <<"fatal errors reported", e.fatal>> ELSE <<>>
  ELSE IF ~e.res \/ e.fatal /= 0 \/ e.dom.k = "none" THEN <<"well-formed, but refused">>
  ELSE LET want == Built(e.doc, e.ext) got == Spell(e.dom) IN
       IF want /= got THEN Report("built", want, got)
       ELSE IF e.doc.dtd /\ (LET t == e.dom.ch[CHOOSE i \in Doctypes(e.dom) : TRUE] IN Range(t.ents) /= Entities(e.doc) \/ Range(t.nots) /= Notations(e.doc) \/ Cardinality(Range(t.ents)) /= Len(t.ents))
            THEN <<"doctype", "specification", Entities(e.doc), Notations(e.doc), "library", e.dom.ch[CHOOSE i \in Doctypes(e.dom) : TRUE]>>
       ELSE <<>>
JudgeWrite(e) ==
  IF e.other /= "" THEN <<"exception", e.other>>
  ELSE IF e.back.k = "none" THEN <<"what was written cannot be read">>
  ELSE IF ~e.same THEN <<"written differently the second time">>
  ELSE LET w == Essence(Spell(e.dom))
           want == IF e.how = "fragment" THEN << <<"se", "", "w", {}>> >> \o w \o << <<"ee">> >> ELSE w
           got == Essence(Spell(e.back)) IN
       IF want = got THEN <<>> ELSE Report("read back", want, got)
Judge1(e) == IF e.op = "build" THEN JudgeBuild(e) ELSE JudgeWrite(e)
LANES == 16
Judge(i) == LET v == Judge1(Trace[i]) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"@@MISMATCH", i, v, "in", Trace[i].xml>>)
Init == l \in 1..(IF Len(Trace) < LANES THEN Len(Trace) ELSE LANES) /\ Judge(l)
Next == l + LANES <= Len(Trace) /\ l' = l + LANES /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
