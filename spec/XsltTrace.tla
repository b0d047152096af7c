------------------------------ MODULE XsltTrace ------------------------------
(* Judges recorded transformations against Xslt.tla: the result tree given to the
   application and the one found by reading the serialised output again.         *)
EXTENDS Xslt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
RECURSIVE Got(_)
Got(is) == [i \in DOMAIN is |->
  IF is[i][1] = "e" THEN <<"e", is[i][2], is[i][3], {is[i][4][j] : j \in DOMAIN is[i][4]}, Got(is[i][5])>> ELSE is[i]]
RECURSIVE Want(_)
Want(is) == [i \in DOMAIN is |->
  IF is[i][1] = "e" THEN <<"e", is[i][2], is[i][3], {<<q[1], q[2], is[i][4][q]>> : q \in DOMAIN is[i][4]}, Want(is[i][5])>> ELSE is[i]]
RECURSIVE Trim(_)
Trim(s) == IF s /= "" /\ SubSeq(s, 1, 1) \in {" ", "\n", "\t", "\r"} THEN Trim(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE Reread(_)   \* white space before the data of a processing instruction is not part of it
Reread(is) == [i \in DOMAIN is |-> IF is[i][1] = "e" THEN [is[i] EXCEPT ![5] = Reread(is[i][5])]
                                 ELSE IF is[i][1] = "p" THEN <<"p", is[i][2], Trim(is[i][3])>> ELSE is[i]]
Declaration(alone) == "<?xml version=\"1.0\"" \o (IF alone = "" THEN "" ELSE " standalone=\"" \o alone \o "\"") \o "?>\n"
Verdict(e) ==
  LET D == TLCEval(Prep(e.R))
      w == TLCEval(Run(e.M, D, e.passed))
  IN IF Deep(w, "top") THEN <<>>
     ELSE IF Deep(w, "err") THEN (IF e.ok THEN <<"should fail", "library", e.text>> ELSE <<>>)
     ELSE IF ~e.ok THEN <<"fails:", e.err, "specification", Want(w)>>
     ELSE IF e.meth = "text"
          THEN IF e.text # AllText(w) THEN <<"text output", "specification", AllText(w), "library", e.text>>
               ELSE IF Got(e.tree) # (IF AllText(w) = "" THEN <<>> ELSE <<<<"t", AllText(w)>>>>) THEN <<"text result", "specification", AllText(w), "library", Got(e.tree)>>
               ELSE <<>>
     ELSE IF Got(e.tree) # Want(w) THEN <<"result", "specification", Want(w), "library", Got(e.tree)>>
     ELSE IF Got(e.read) # Reread(Want(w)) THEN <<"serialised", "specification", Want(w), "library", e.text, e.err>>
     ELSE IF \E j \in DOMAIN e.sect : LET q == e.sect[j] IN IF \E k \in DOMAIN e.cd : e.cd[k] = <<q[1], q[2]>> THEN ~q[3] ELSE q[4]
          THEN <<"CDATA sections", e.sect, "library", e.text>>
     ELSE IF e.decl # (IF e.omit \/ w = <<>> THEN "" ELSE Declaration(e.alone)) THEN <<"XML declaration", e.decl, "specification", Declaration(e.alone)>>
     ELSE <<>>
LANES == 16
Judge(i) == LET v == Verdict(Trace[i]) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"@@MISMATCH", i, v>>)
Init == l \in 1..(IF Len(Trace) < LANES THEN Len(Trace) ELSE LANES) /\ Judge(l)
Next == l + LANES <= Len(Trace) /\ l' = l + LANES /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
