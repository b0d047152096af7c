----------------------------- MODULE XPathTrace -----------------------------
(* Judges recorded axes ("ax"), expression values ("x") and pattern matches ("m")
   against XPath.tla; each line names the line that holds its document.         *)
EXTENDS XPath, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
DocLines == {i \in DOMAIN Trace : Trace[i].k = "doc"}
Load(e) ==
  LET D == TLCEval(Prep(e.R))
      val(v) == IF v.t = "ns" THEN VNS({Idx(D, q) : q \in RangeOf(v.v)}) ELSE v
  IN [D |-> D, vars |-> TLCEval([n \in DOMAIN e.vars |-> val(e.vars[n])])]
Docs == TLCEval([i \in DOMAIN Trace |-> IF i \in DocLines THEN TLCEval(Load(Trace[i])) ELSE 0])
Keys(D, s) == [i \in DOMAIN s |-> IF s[i] = 0 THEN <<0>> ELSE D.x[s[i]].key]
Nums(D, ks) == [i \in DOMAIN ks |-> IF HasKey(D, ks[i]) THEN Idx(D, ks[i]) ELSE 0]
(* same sequence, except that namespace nodes of one element come in any order *)
NsBlock(D, i) == IF i # 0 /\ D.x[i].t = "ns" THEN -D.x[i].par ELSE i
SameSeq(D, a, b) == /\ Len(a) = Len(b) /\ RangeOf(a) = RangeOf(b)
                    /\ \A i \in DOMAIN a : NsBlock(D, a[i]) = NsBlock(D, b[i])
Monotone(D, s) == \/ \A i \in 1..(Len(s) - 1) : NsBlock(D, s[i]) = NsBlock(D, s[i + 1]) \/ s[i] < s[i + 1]
                  \/ \A i \in 1..(Len(s) - 1) : NsBlock(D, s[i]) = NsBlock(D, s[i + 1]) \/ s[i] > s[i + 1]
NoDup(s) == Cardinality(RangeOf(s)) = Len(s)
Axes(E, e) ==
  LET n == Idx(E.D, e.c)
      bad == {ax \in DOMAIN e.a : ~SameSeq(E.D, Nums(E.D, e.a[ax]), InOrder(Axis(E.D, n, ax), ax))}
  IN IF bad = {} THEN <<>>
     ELSE LET ax == CHOOSE q \in bad : TRUE
          IN <<ax, "from", e.c, "specification", Keys(E.D, InOrder(Axis(E.D, n, ax), ax)), "library", e.a[ax]>>
Value(E, e) ==
  IF ~e.ok THEN <<"refused", e.src, e.err>>
  ELSE
  LET D == E.D
      v == Eval(E, [n |-> Idx(D, e.c), p |-> e.p, l |-> e.l], e.e)
      got == Nums(D, e.ns)
      b == ToB(D, v)  s == ToS(D, v)  nn == ToN(D, v)
  IN IF ~e.same THEN <<"evaluateAs differs from evaluate", e.src>>
     ELSE IF ~e.ww THEN <<"number badly written", e.src, e.s>>
     ELSE IF v.t = "top" THEN (IF e.t = "ns" /\ ~NoDup(got) THEN <<"duplicates", e.src, e.ns>> ELSE <<>>)
     ELSE IF e.t # v.t THEN <<"type of", e.src, "specification", v.t, "library", e.t>>
     ELSE IF v.t = "ns" /\ RangeOf(got) # v.v THEN <<e.src, "at", e.c, "specification", Keys(D, Up(v.v)), "library", e.ns>>
     ELSE IF v.t = "ns" /\ (~NoDup(got) \/ ~SameSeq(D, Nums(D, e.o), Up(v.v))) THEN <<"order of", e.src, "at", e.c, "specification", Keys(D, Up(v.v)), "library", e.ns, e.o>>
     ELSE IF b.t = "b" /\ b.v # e.b THEN <<e.src, "at", e.c, "as boolean: specification", b.v, "library", e.b>>
     ELSE IF nn.t = "n" /\ nn.v # e.n THEN <<e.src, "at", e.c, "as number: specification", nn.v, "library", e.n, e.s>>
     ELSE IF s.t = "s" /\ s.v # e.s THEN <<e.src, "at", e.c, "as string: specification", s.v, "library", e.s>>
     ELSE <<>>
Pattern(E, e) ==
  IF ~e.ok THEN <<"refused", e.src, e.err>>
  ELSE LET D == E.D
           pri == [i \in DOMAIN e.e |-> Priority4(e.e[i])]
           N == {n \in DOMAIN D.x : D.x[n].t # "ns"}
           hit == [i \in DOMAIN e.hit |-> RangeOf(Nums(D, e.hit[i]))]
       IN IF Len(e.pri) # Len(e.e) THEN <<"number of alternatives", e.src>>
          ELSE IF e.pri # pri THEN <<"priority of", e.src, "specification", pri, "library", e.pri>>
          ELSE LET bad == {<<i, n>> \in (DOMAIN e.e) \X N : LET m == Matches(E, n, e.e[i]) IN m # "U" /\ (m = "T") # (n \in hit[i])}
               IN IF bad = {} THEN <<>>
                  ELSE LET w == CHOOSE q \in bad : TRUE
                       IN <<e.src, "alternative", w[1], "node", D.x[w[2]].key, "specification matches", Matches(E, w[2], e.e[w[1]]), "library", w[2] \in hit[w[1]]>>
Verdict(e) ==
  CASE e.k = "doc" -> <<>>
    [] e.k = "ax" -> Axes(Docs[e.d], e)
    [] e.k = "x" -> Value(Docs[e.d], e)
    [] e.k = "m" -> Pattern(Docs[e.d], e)
LANES == 16
Judge(i) == LET v == Verdict(Trace[i]) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"@@MISMATCH", i, v>>)
Init == l \in 1..(IF Len(Trace) < LANES THEN Len(Trace) ELSE LANES) /\ Judge(l)
Next == l + LANES <= Len(Trace) /\ l' = l + LANES /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
