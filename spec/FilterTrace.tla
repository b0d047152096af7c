---------------------------- MODULE FilterTrace ----------------------------
EXTENDS Filter, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ToSet(s) == {s[i] : i \in 1..Len(s)}
(* a chain passes configuration to the reader; a filter without one refuses *)
RECURSIVE CfgBad(_, _, _)
CfgBad(ops, i, m) ==
  IF i > Len(ops) THEN <<>>
  ELSE LET o == ops[i]
           known == o[1] \in {"f1", "f2"}
           m2 == IF known THEN [m EXCEPT ![o[1]] = o[2]] ELSE m
       IN IF o[3] /= (IF known THEN "ok" ELSE IF o[1] = "ro" THEN "unsupported" ELSE "unknown") THEN <<"setFeature", i, o>>
          ELSE IF o[4] /= (IF known THEN m2[o[1]] ELSE "unknown") THEN <<"getFeature", i, o>>
          ELSE CfgBad(ops, i + 1, m2)
Plain(e) == [f \in DOMAIN e \ {"b"} |-> e[f]]
Probe(f, st) ==
  CASE f.k = "ns" -> <<<<NsGet(st, ""), NsGet(st, "p"), NsGet(st, "q"), XMLNS, "", NsGet(st, ""), "", XMLNS>>, NsAll(st) \cup {<<"xml", XMLNS>>}>>
    [] f.k = "base" -> <<<<Str(BaseOf(st)), Str(Resolve(BaseOf(st), [EmptyRef EXCEPT !.segs = <<"r", "s">>]))>>, {}>>
    [] OTHER -> <<<<>>, {}>>
Told(p) == <<p[1], ToSet(p[2])>>
(* the handler's log *)
RECURSIVE LogBad(_, _, _, _)
LogBad(chain, exp, got, i) ==
  IF i > Len(exp) /\ i > Len(got) THEN <<>>
  ELSE IF i > Len(got) THEN <<"event", i, "missing", Plain(exp[i].ev)>>
  ELSE IF i > Len(exp) THEN <<"event", i, "not expected", got[i].ev>>
  ELSE IF Plain(exp[i].ev) /= got[i].ev THEN <<"event", i, "expected", Plain(exp[i].ev), "library", got[i].ev>>
  ELSE IF exp[i].h /= got[i].h THEN <<"event", i, "handler", exp[i].h, "library", got[i].h>>
  ELSE LET bad == {k \in 1..Len(chain) : Probe(chain[k], exp[i].tr[k]) /= Told(got[i].pr[k])}
       IN IF bad /= {} THEN LET k == CHOOSE k \in bad : TRUE
                            IN <<"at event", i, got[i].ev, "filter", k, "expected", Probe(chain[k], exp[i].tr[k]), "library", Told(got[i].pr[k])>>
          ELSE LogBad(chain, exp, got, i + 1)
Resolved(g, cfg) ==
  LET rs == SelectSeq(g.seen[1], LAMBDA e : e.e = "res")
  IN [i \in 1..Len(rs) |-> IF "R" \in cfg.hs THEN "got:" \o rs[i].s \o "|id:" \o rs[i].p ELSE "|"]
(* texts are read back only if they are whole documents that can be read without the DTD's external parts *)
Whole(seen) == /\ \E i \in 1..Len(seen) : seen[i].e = "se"
               /\ seen[Len(seen)].e = "ed"
               /\ ~\E i \in 1..Len(seen) : seen[i].e = "sk" /\ seen[i].n /= "[dtd]"
Squash(back, ext, loose) ==   \* the reader's events, texts without white space if need be
  LET f(e) == CASE e.e = "se" -> [e EXCEPT !.ns = ToSet(@), !.at = {a \in ToSet(@) : ~NsDecl(<<"", "", a[1]>>)}]
                [] e.e = "ch" -> [e EXCEPT !.t = IF loose THEN NoWs(@, 1, "") ELSE @]
                [] OTHER -> e
      m == [i \in 1..Len(back) |-> f(back[i])]
  IN SelectSeq(m, LAMBDA e : e.e /= "ch" \/ e.t /= "")
BackBad(chain, g, e) ==
  LET ws == {k \in 1..Len(chain) : chain[k].k = "writer" /\ Whole(g.seen[k])}
      bad == {k \in ws : Squash(e.back[k], FALSE, chain[k].ind > 0) /= Reads(g.seen[k], chain[k].ind > 0)}
  IN IF g.end /= "" \/ bad = {} THEN <<>>
     ELSE LET k == CHOOSE k \in bad : TRUE
              x == Reads(g.seen[k], chain[k].ind > 0)
              y == Squash(e.back[k], FALSE, chain[k].ind > 0)
              d == {i \in 1..Len(x) : i > Len(y) \/ x[i] /= y[i]}
              i == IF d = {} THEN Len(x) + 1 ELSE CHOOSE i \in d : \A j \in d : i <= j
          IN <<"reading back what filter", k, "wrote: event", i, IF i <= Len(x) THEN x[i] ELSE "none", "read", IF i <= Len(y) THEN y[i] ELSE "none">>
Verdict(e) ==
  LET cfg == [hs |-> ToSet(e.hs), sw |-> e.sw, thr |-> e.thr]
      g == Run(e.links, cfg, e.sysid, e.in)
      c == CfgBad(e.cfg, 1, [f1 |-> "false", f2 |-> "true"])
      lb == LogBad(e.links, g.log, e.log, 1)
      tb == {k \in 1..Len(e.links) : g.txt[k] /= e.txt[k]}
  IN IF c /= <<>> THEN c
     ELSE IF e.alone /= <<"unknown", "unknown", "refused", "none">> THEN <<"a filter without a parent", e.alone>>
     ELSE IF ~e.kept THEN <<"handlers, parents, locator or source are not those set">>
     ELSE IF lb /= <<>> THEN lb
     ELSE IF e.end /= (IF g.end = "" THEN "ok" ELSE g.end) THEN <<"parse ended", e.end, "expected", g.end>>
     ELSE IF tb /= {} THEN LET k == CHOOSE k \in tb : TRUE IN <<"filter", k, "wrote", e.txt[k], "expected", g.txt[k]>>
     ELSE IF e.end = "ok" /\ e.res /= Resolved(g, cfg) THEN <<"resolved entities", e.res, "expected", Resolved(g, cfg)>>
     ELSE BackBad(e.links, g, e)
LANES == 16
Judge(i) == LET v == Verdict(Trace[i]) IN IF v = <<>> THEN TRUE ELSE PrintT(<<"@@MISMATCH", i, v>>)
Init == l \in 1..(IF Len(Trace) < LANES THEN Len(Trace) ELSE LANES) /\ Judge(l)
Next == l + LANES <= Len(Trace) /\ l' = l + LANES /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
