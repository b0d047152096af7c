------------------------------ MODULE Filter ------------------------------
(* A chain of SAX filters (SAX/helpers/XMLFilterImpl.hpp, SAX/filter) as a    *)
(* state machine fed with events. A filter takes one event, changes its own   *)
(* state, may write text, and passes a sequence of events to the next one;    *)
(* the last passes them to the handlers. What trackers answer is part of the  *)
(* state at the moment the handler is called.                                 *)
(*                                                                            *)
(* Events are records with field e:                                           *)
(*   loc sd ed  spm(p,u) epm(p)  se(u,l,q,at,b) ee(u,l,q)  ch(t) iw(t)        *)
(*   pi(t,d) sk(n) dtd(n,p,s) edtd sen(n) een(n) sc ec cm(t)                  *)
(*   not(n,p,s) unp(n,p,s,o) eld(n,m) atd(n,a,y,f,v) ied(n,v) eed(n,p,s)      *)
(*   warn(m) err(m) fat(m) res(p,s)                                           *)
(* at is a sequence of <<uri, local, qname, type, value>>; b the components   *)
(* of the xml:base attribute, <<>> if there is none (or it is empty).         *)
EXTENDS Uri, FiniteSets

XMLNS == "http://www.w3.org/XML/1998/namespace"
EmptyRef == [scheme |-> "", auth |-> <<>>, abs |-> FALSE, segs |-> <<>>, query |-> <<>>, frag |-> <<>>]

ContentEvents == {"loc", "sd", "ed", "spm", "epm", "se", "ee", "ch", "iw", "pi", "sk"}
LexicalEvents == {"dtd", "edtd", "sen", "een", "sc", "ec", "cm"}
DTDEvents == {"not", "unp"}
DeclEvents == {"eld", "atd", "ied", "eed"}
ErrorEvents == {"warn", "err", "fat"}

(* ---------------------------------------------------------------- strings *)
IsWs(c) == c \in {" ", "\t", "\n", "\r"}
At(s, i) == SubSeq(s, i, i)
RECURSIVE Squeeze(_, _, _, _)
(* leading and trailing space goes, runs of it in between become one space *)
Squeeze(s, i, pend, out) ==
  IF i > Len(s) THEN out
  ELSE IF IsWs(At(s, i)) THEN Squeeze(s, i + 1, out /= "", out)
  ELSE Squeeze(s, i + 1, FALSE, out \o (IF pend THEN " " ELSE "") \o At(s, i))
Normalised(s) == Squeeze(s, 1, FALSE, "")
RECURSIVE MapStr(_, _, _, _)
MapStr(F(_), s, i, out) == IF i > Len(s) THEN out ELSE MapStr(F, s, i + 1, out \o F(At(s, i)))
TextChar(c) == CASE c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] c = "&" -> "&amp;" [] c = "\r" -> "&#xD;" [] OTHER -> c
AttrChar(c) == CASE c = "\"" -> "&quot;" [] c = "\t" -> "&#x9;" [] c = "\n" -> "&#xA;" [] OTHER -> TextChar(c)
EntChar(c) == CASE c = "\"" -> "&#34;" [] c = "%" -> "&#37;" [] c = "&" -> "&#38;" [] c = "\r" -> "&#13;" [] OTHER -> c
PyxChar(c) == IF c = "\n" THEN "\\n" ELSE c
EscText(s) == MapStr(TextChar, s, 1, "")
EscAttr(s) == MapStr(AttrChar, s, 1, "")
EscEnt(s) == MapStr(EntChar, s, 1, "")
EscPyx(s) == MapStr(PyxChar, s, 1, "")
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
Has(s, c) == \E i \in 1..Len(s) : At(s, i) = c
Quoted(s) == IF Has(s, "\"") THEN "'" \o s \o "'" ELSE "\"" \o s \o "\""
RECURSIVE Cat(_, _)
Cat(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o Cat(s, i + 1)
Or(a, b) == IF a /= "" THEN a ELSE b

(* ------------------------------------------------------------- one filter *)
(* f.k: plain coalesce strip textonly ns base pyx writer                      *)
Fresh(f, loc) ==
  CASE f.k = "coalesce" -> [buf |-> ""]
    [] f.k = "ns" -> [ctx |-> << [p \in {"xml"} |-> XMLNS] >>, decl |-> <<>>]
    [] f.k = "base" -> [stack |-> <<>>, doc |-> IF f.loc /= <<>> THEN f.loc[1] ELSE IF loc /= <<>> THEN loc[1] ELSE EmptyRef]
    [] f.k = "writer" -> [open |-> FALSE, cdata |-> FALSE, dtd |-> FALSE, int |-> TRUE, depth |-> 0, pm |-> <<>>, last |-> "start"]
    [] OTHER -> [none |-> TRUE]

Chars(t) == [e |-> "ch", t |-> t]
Keep(st, e) == [pre |-> st, outs |-> <<e>>, post |-> st, txt |-> ""]

(* batches text: whatever is not text sends out the text before it; the document locator, *)
(* ends of prefix mappings and declarations cannot follow text *)
Coalesce(st, e) ==
  IF e.e \in {"ch", "iw"} THEN [pre |-> [buf |-> st.buf \o e.t], outs |-> <<>>, post |-> [buf |-> st.buf \o e.t], txt |-> ""]
  ELSE IF e.e = "sd" THEN [Keep([buf |-> ""], e) EXCEPT !.outs = <<e>>]
  ELSE IF e.e \in {"loc", "epm", "res"} \cup DTDEvents \cup DeclEvents \/ st.buf = "" THEN Keep(st, e)
  ELSE [Keep([buf |-> ""], e) EXCEPT !.outs = <<Chars(st.buf), e>>]

Strip(st, e) ==
  IF e.e = "ch" THEN Keep(st, Chars(Normalised(e.t)))
  ELSE IF e.e = "iw" THEN [Keep(st, e) EXCEPT !.outs = <<>>]
  ELSE Keep(st, e)

TextOnlyEvents == {"loc", "sd", "ed", "ch", "iw", "res"} \cup ErrorEvents
TextOnly(st, e) == IF e.e \in TextOnlyEvents THEN Keep(st, e) ELSE [Keep(st, e) EXCEPT !.outs = <<>>]

(* the mappings announced before an element are in force from its start to its end *)
RECURSIVE With(_, _, _)
With(m, decl, i) == IF i > Len(decl) THEN m ELSE With((decl[i][1] :> decl[i][2]) @@ m, decl, i + 1)
NsTrack(st, e) ==
  CASE e.e = "spm" -> Keep([st EXCEPT !.decl = Append(@, <<e.p, e.u>>)], e)
    [] e.e = "se" -> Keep([ctx |-> Append(st.ctx, With(st.ctx[Len(st.ctx)], st.decl, 1)), decl |-> <<>>], e)
    [] e.e = "ee" -> [Keep(st, e) EXCEPT !.post = [st EXCEPT !.ctx = Front(st.ctx)]]
    [] OTHER -> Keep(st, e)
NsGet(st, p) == LET m == st.ctx[Len(st.ctx)] IN IF p \in DOMAIN m THEN m[p] ELSE ""
NsAll(st) ==
  LET m == st.ctx[Len(st.ctx)]
  IN {<<p, m[p]>> : p \in {q \in DOMAIN m : m[q] /= ""}} \cup {<<"", NsGet(st, "")>>}

BaseOf(st) == IF st.stack = <<>> THEN st.doc ELSE st.stack[Len(st.stack)]
BaseTrack(st, e) ==
  CASE e.e = "se" -> Keep([st EXCEPT !.stack = Append(@, IF e.b = <<>> THEN BaseOf(st) ELSE Resolve(BaseOf(st), e.b[1]))], e)
    [] e.e = "ee" -> [Keep(st, e) EXCEPT !.post = [st EXCEPT !.stack = Front(st.stack)]]
    [] OTHER -> Keep(st, e)

Pyx(st, e) ==
  [Keep(st, e) EXCEPT !.txt =
    CASE e.e = "se" -> "(" \o e.l \o "\n" \o Cat([i \in 1..Len(e.at) |-> "A" \o e.at[i][2] \o " " \o EscPyx(e.at[i][5]) \o "\n"], 1)
      [] e.e = "ee" -> ")" \o e.l \o "\n"
      [] e.e = "ch" -> "-" \o EscPyx(e.t) \o "\n"
      [] e.e = "pi" -> "?" \o e.t \o " " \o e.d \o "\n"
      [] OTHER -> ""]

(* writes the document out again *)
Attrs(at) == Cat([i \in 1..Len(at) |-> " " \o Or(at[i][3], at[i][2]) \o "=\"" \o EscAttr(at[i][5]) \o "\""], 1)
Ids(p, s) == " " \o (IF p = "" THEN "" ELSE "PUBLIC \"" \o p \o "\"")
             \o (IF s = "" THEN "" ELSE (IF p = "" THEN "SYSTEM" ELSE "") \o " " \o Quoted(s))
EntName(n) == IF n /= "" /\ At(n, 1) = "%" THEN "% " \o SubSeq(n, 2, Len(n)) ELSE n
Writer(f, st, e) ==
  LET ind == f.ind
      gt == IF st.open THEN ">" ELSE ""
      c == [st EXCEPT !.open = FALSE]
      say(s2, t) == [Keep(s2, e) EXCEPT !.txt = t]
      visible == ~st.dtd \/ st.int
      decl(t) == say(c, gt \o (IF st.dtd /\ st.int THEN Spaces(st.depth) \o t \o ">\n" ELSE ""))
  IN CASE e.e = "sd" -> say([Fresh(f, <<>>) EXCEPT !.last = "doc"],
                            "<?xml version=\"1.0\"" \o (IF f.enc = "" THEN "" ELSE " encoding=\"" \o f.enc \o "\"") \o "?>\n")
       [] e.e = "ed" -> say([c EXCEPT !.last = "end"], gt)
       [] e.e = "spm" -> say([st EXCEPT !.pm = Append(@, <<"", "", IF e.p = "" THEN "xmlns" ELSE "xmlns:" \o e.p, "", e.u>>)], "")
       [] e.e = "se" ->
            LET mine == SelectSeq(st.pm, LAMBDA m : ~\E j \in 1..Len(e.at) : e.at[j][3] = m[3])
            IN say([st EXCEPT !.open = TRUE, !.depth = @ + ind, !.last = "start", !.pm = <<>>],
                   gt \o (IF st.last = "start" /\ ind > 0 THEN "\n" ELSE "") \o Spaces(st.depth)
                   \o "<" \o Or(e.q, e.l) \o Attrs(mine) \o Attrs(e.at))
       [] e.e = "ee" ->
            say([c EXCEPT !.depth = @ - ind, !.last = "end"],
                (IF st.open THEN "/>"
                 ELSE (IF st.last = "end" THEN Spaces(st.depth - ind) ELSE "") \o "</" \o Or(e.q, e.l) \o ">")
                \o (IF ind > 0 THEN "\n" ELSE ""))
       [] e.e = "ch" -> say(c, gt \o (IF st.cdata THEN e.t ELSE EscText(e.t)))
       [] e.e = "iw" -> say(c, gt \o e.t)
       [] e.e = "pi" -> say(c, gt \o (IF visible THEN "<?" \o e.t \o (IF e.d = "" THEN "" ELSE " " \o e.d) \o "?>" ELSE ""))
       [] e.e = "sk" -> say(c, gt \o (IF e.n = "[dtd]" THEN "" ELSE "&" \o e.n \o ";"))
       [] e.e = "cm" -> say(c, gt \o (IF visible THEN "<!--" \o e.t \o "-->" ELSE ""))
       [] e.e = "sc" -> say([c EXCEPT !.cdata = TRUE], gt \o "<![CDATA[")
       [] e.e = "ec" -> say([c EXCEPT !.cdata = FALSE], gt \o "]]>")
       [] e.e = "sen" -> say([c EXCEPT !.int = IF e.n = "[dtd]" THEN FALSE ELSE @], gt)
       [] e.e = "een" -> say([c EXCEPT !.int = IF e.n = "[dtd]" THEN TRUE ELSE @], gt)
       [] e.e = "dtd" -> say([c EXCEPT !.dtd = TRUE, !.depth = @ + ind], gt \o "<!DOCTYPE " \o e.n \o Ids(e.p, e.s) \o " [\n")
       [] e.e = "edtd" -> say([c EXCEPT !.dtd = FALSE, !.depth = @ - ind], gt \o "]>\n")
       [] e.e = "not" -> decl("<!NOTATION " \o e.n \o Ids(e.p, e.s))
       [] e.e = "unp" -> decl("<!ENTITY " \o EntName(e.n) \o Ids(e.p, e.s) \o " NDATA " \o e.o)
       [] e.e = "eld" -> decl("<!ELEMENT " \o e.n \o " " \o e.m)
       [] e.e = "atd" -> decl("<!ATTLIST " \o e.n \o " " \o e.a \o " " \o e.y \o (IF e.f = "" THEN "" ELSE " " \o e.f)
                              \o (IF e.v /= "" \/ e.f \in {"", "#FIXED"} THEN " \"" \o EscAttr(e.v) \o "\"" ELSE ""))
       [] e.e = "ied" -> decl("<!ENTITY " \o EntName(e.n) \o " \"" \o EscEnt(e.v) \o "\"")
       [] e.e = "eed" -> decl("<!ENTITY " \o EntName(e.n) \o Ids(e.p, e.s))
       [] OTHER -> Keep(st, e)

Step(f, st, e) ==
  CASE f.k = "coalesce" -> Coalesce(st, e)
    [] f.k = "strip" -> Strip(st, e)
    [] f.k = "textonly" -> TextOnly(st, e)
    [] f.k = "ns" -> NsTrack(st, e)
    [] f.k = "base" -> BaseTrack(st, e)
    [] f.k = "pyx" -> Pyx(st, e)
    [] f.k = "writer" -> Writer(f, st, e)
    [] OTHER -> Keep(st, e)

(* ------------------------------------------------------------- the chain *)
(* g: st   the state of each filter                                           *)
(*    txt  what each has written; seen  what each has been passed             *)
(*    log  what the handlers got: [ev, h, tr] - event, which content handler,  *)
(*         the filter states then                                             *)
(*    end  "" while it runs, "thrown" or "fatal"                               *)
(* cfg: hs the kinds of handler set, sw the event after which the content      *)
(*      handler is exchanged, thr the event the handler throws at (0 for none) *)
Start(chain, loc) == [st |-> [i \in 1..Len(chain) |-> Fresh(chain[i], loc)], txt |-> [i \in 1..Len(chain) |-> ""],
                      seen |-> [i \in 1..Len(chain) |-> <<>>], log |-> <<>>, end |-> ""]
Kind(e) == CASE e.e \in ContentEvents -> "C" [] e.e \in LexicalEvents -> "L" [] e.e \in DTDEvents -> "D"
             [] e.e \in DeclEvents -> "X" [] e.e = "res" -> "R" [] OTHER -> "E"
Target(cfg, g, e) ==
  LET k == Kind(e)
  IN IF k = "C" /\ cfg.sw > 0 /\ Len(g.log) >= cfg.sw THEN 2
     ELSE IF k \in cfg.hs THEN 1 ELSE 0
Deliver(cfg, g, e) ==
  LET h == Target(cfg, g, e)
  IN IF h = 0 THEN IF e.e = "fat" THEN [g EXCEPT !.end = "fatal"] ELSE g
     ELSE LET n == Len(g.log) + 1
          IN [g EXCEPT !.log = Append(@, [ev |-> e, h |-> h, tr |-> g.st]),
                       !.end = IF n = cfg.thr THEN "thrown" ELSE @]
RECURSIVE Feed(_, _, _, _, _), FeedAll(_, _, _, _, _, _)
Feed(chain, cfg, g, i, e) ==
  IF g.end /= "" THEN g
  ELSE IF i > Len(chain) THEN Deliver(cfg, g, e)
  ELSE LET r == Step(chain[i], g.st[i], e)
           g1 == [g EXCEPT !.st[i] = r.pre, !.txt[i] = @ \o r.txt, !.seen[i] = Append(@, e)]
           g2 == FeedAll(chain, cfg, g1, i + 1, r.outs, 1)
       IN IF g2.end /= "" THEN g2 ELSE IF r.post = r.pre THEN g2 ELSE [g2 EXCEPT !.st[i] = r.post]
FeedAll(chain, cfg, g, i, es, j) ==
  IF j > Len(es) THEN g ELSE FeedAll(chain, cfg, Feed(chain, cfg, g, i, es[j]), i, es, j + 1)
Run(chain, cfg, loc, es) == FeedAll(chain, cfg, Start(chain, loc), 1, es, 1)

(* -------------------------------------------- what a writer's text must say *)
(* the events a reader of the text reports, from those the writer was passed: text joined, *)
(* entity boundaries, the external subset and what is not in a document left out *)
NoPercent(n) == IF n /= "" /\ At(n, 1) = "%" THEN SubSeq(n, 2, Len(n)) ELSE n
NsDecl(a) == a[3] = "xmlns" \/ (Len(a[3]) > 6 /\ SubSeq(a[3], 1, 6) = "xmlns:")
RECURSIVE NoWs(_, _, _)
NoWs(s, i, out) == IF i > Len(s) THEN out ELSE NoWs(s, i + 1, IF IsWs(At(s, i)) THEN out ELSE out \o At(s, i))
AddText(out, t) ==
  IF t = "" THEN out
  ELSE IF out /= <<>> /\ out[Len(out)].e = "ch" THEN [out EXCEPT ![Len(out)] = Chars(@.t \o t)]
  ELSE Append(out, Chars(t))
RECURSIVE Canon(_, _, _, _, _, _)
Canon(es, i, loose, ext, pm, out) ==
  IF i > Len(es) THEN out
  ELSE LET e == es[i]
           on(x) == Canon(es, i + 1, loose, ext, pm, x)
       IN IF e.e \in {"sen", "een"} /\ e.n = "[dtd]" THEN Canon(es, i + 1, loose, e.e = "sen", pm, out)
          ELSE IF ext \/ e.e \in {"sen", "een", "loc", "epm", "sk", "res", "sd", "ed"} \cup ErrorEvents THEN on(out)
          ELSE CASE e.e \in {"ch", "iw"} -> on(AddText(out, IF loose THEN NoWs(e.t, 1, "") ELSE e.t))
                 [] e.e = "spm" -> Canon(es, i + 1, loose, ext, pm \cup {<<e.p, e.u>>}, out)
                 [] e.e = "se" -> Canon(es, i + 1, loose, ext, {},
                                        Append(out, [e |-> "se", q |-> Or(e.q, e.l), ns |-> pm,
                                                     at |-> {<<Or(e.at[k][3], e.at[k][2]), e.at[k][5]>> : k \in {j \in 1..Len(e.at) : ~NsDecl(e.at[j])}}]))
                 [] e.e = "ee" -> on(Append(out, [e |-> "ee", q |-> Or(e.q, e.l)]))
                 [] e.e \in {"unp", "ied", "eed"} -> on(Append(out, [e EXCEPT !.n = NoPercent(@)]))
                 [] OTHER -> on(Append(out, e))
Reads(es, loose) == Canon(es, 1, loose, FALSE, {}, <<>>)
=============================================================================
