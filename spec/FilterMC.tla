----------------------------- MODULE FilterMC -----------------------------
(* Every document of up to N events over a small vocabulary, through fixed    *)
(* chains side by side. What the trackers answer is compared with the         *)
(* definition of scope (read off the events themselves), what the writer      *)
(* writes with a small reader of XML, what the batcher does with the text.    *)
EXTENDS Filter
CONSTANTS N, Rich   \* Rich: the larger vocabulary
VARIABLES es, open, pend, incd, dn
F(k) == [k |-> k, ind |-> 0, enc |-> "", loc |-> <<>>]
Doc == [EmptyRef EXCEPT !.scheme = "http", !.auth = <<"h", "">>, !.abs = TRUE, !.segs = <<"d", "e">>]
Rel == [EmptyRef EXCEPT !.segs = <<"x", "">>]
Abs == [EmptyRef EXCEPT !.abs = TRUE, !.segs = <<"y">>]
Cfg == [hs |-> {"C", "L", "D", "X", "E", "R"}, sw |-> 0, thr |-> 0]
Log(ks) == Run([i \in 1..Len(ks) |-> F(ks[i])], Cfg, <<Doc>>, es).log
Evs(log) == [i \in 1..Len(log) |-> log[i].ev]
At0 == {<<>>, <<<<"", "k", "k", "CDATA", "<\"&">>>>}
Se(q, at, b) == [e |-> "se", u |-> "", l |-> q, q |-> q, at |-> at, b |-> b]
Init == es = <<[e |-> "sd"]>> /\ open = <<>> /\ pend = FALSE /\ incd = FALSE /\ dn = FALSE
Add(e) == Len(es) < N /\ ~dn /\ es' = Append(es, e)
inside == open /= <<>> /\ ~pend
Next ==
  \/ /\ ~incd /\ (open /= <<>> \/ \A i \in 1..Len(es) : es[i].e /= "se")
     /\ \/ \E p \in (IF Rich THEN {"", "p"} ELSE {"p"}), u \in (IF Rich THEN {"u", "v"} ELSE {"u"}) : Add([e |-> "spm", p |-> p, u |-> u]) /\ pend' = TRUE /\ UNCHANGED <<open, incd, dn>>
        \/ \E q \in {"a"}, at \in (IF Rich THEN At0 ELSE {<<>>}), b \in (IF Rich THEN {<<>>, <<Rel>>, <<Abs>>} ELSE {<<>>, <<Rel>>}) :
             Add(Se(q, at, b)) /\ open' = Append(open, q) /\ pend' = FALSE /\ UNCHANGED <<incd, dn>>
  \/ /\ inside /\ ~incd
     /\ \/ Add([e |-> "ee", u |-> "", l |-> Last(open), q |-> Last(open)]) /\ open' = Front(open) /\ UNCHANGED <<pend, incd, dn>>
        \/ Rich /\ Add([e |-> "iw", t |-> " "]) /\ UNCHANGED <<open, pend, incd, dn>>
        \/ Add([e |-> "sc"]) /\ incd' = TRUE /\ UNCHANGED <<open, pend, dn>>
        \/ Rich /\ Add([e |-> "warn", m |-> "w"]) /\ UNCHANGED <<open, pend, incd, dn>>
  \/ inside /\ (\E t \in (IF Rich THEN {"x", "<&", " \n"} ELSE {"<"}) : Add(Chars(t))) /\ UNCHANGED <<open, pend, incd, dn>>
  \/ Rich /\ ~pend /\ ~incd /\ Add([e |-> "cm", t |-> "c<"]) /\ UNCHANGED <<open, pend, incd, dn>>
  \/ incd /\ Add([e |-> "ec"]) /\ incd' = FALSE /\ UNCHANGED <<open, pend, dn>>
  \/ /\ open = <<>> /\ ~pend /\ ~incd /\ \E i \in 1..Len(es) : es[i].e = "se"
     /\ Add([e |-> "ed"]) /\ dn' = TRUE /\ UNCHANGED <<open, pend, incd>>
Spec == Init /\ [][Next]_<<es, open, pend, incd, dn>>

(* ---- laws *)
Passes == Evs(Log(<<"plain", "plain">>)) = es /\ Evs(Log(<<"ns", "base", "pyx", "writer">>)) = es
RECURSIVE Texts(_, _)
Texts(s, i) == IF i > Len(s) THEN "" ELSE (IF s[i].e \in {"ch", "iw"} THEN s[i].t ELSE "") \o Texts(s, i + 1)
Rest(s) == SelectSeq(s, LAMBDA e : e.e \notin {"ch", "iw"})
Batches == LET o == Evs(Log(<<"coalesce">>))
           IN /\ Rest(o) = Rest(es) /\ (es[Len(es)].e \in {"ch", "iw"} \/ Texts(o, 1) = Texts(es, 1))
              /\ \A i \in 1..(Len(o) - 1) : ~(o[i].e = "ch" /\ o[i + 1].e = "ch")
              /\ Evs(Log(<<"coalesce", "coalesce">>)) = o
(* the elements open at event i: positions of their start events *)
RECURSIVE Opens(_, _, _)
Opens(i, k, st) == IF k > i THEN st
                   ELSE Opens(i, k + 1, IF es[k].e = "se" THEN Append(st, k) ELSE IF es[k].e = "ee" /\ k < i THEN Front(st) ELSE st)
Decls(k) == LET S == {j \in 1..(k - 1) : es[j].e = "spm" /\ \A m \in j..(k - 1) : es[m].e = "spm"} IN S
Innermost(i, p) ==
  LET ks == Opens(i, 1, <<>>)
      js == UNION {{j \in Decls(ks[n]) : es[j].p = p} : n \in 1..Len(ks)}
  IN IF js = {} THEN "" ELSE es[CHOOSE j \in js : \A m \in js : m <= j].u
Scopes == LET lg == Log(<<"ns">>)
          IN \A i \in 1..Len(es) : es[i].e /= "ed" => \A p \in {"", "p"} : NsGet(lg[i].tr[1], p) = Innermost(i, p)
RECURSIVE BaseAt(_, _)
BaseAt(ks, n) == IF n = 0 THEN Doc ELSE IF es[ks[n]].b = <<>> THEN BaseAt(ks, n - 1) ELSE Resolve(BaseAt(ks, n - 1), es[ks[n]].b[1])
Bases == LET lg == Log(<<"base">>) IN \A i \in 1..Len(es) : LET ks == Opens(i, 1, <<>>) IN BaseOf(lg[i].tr[1]) = BaseAt(ks, Len(ks))
Only == \A i \in 1..Len(Log(<<"textonly">>)) : Log(<<"textonly">>)[i].ev.e \in TextOnlyEvents
Strips == LET o == Evs(Log(<<"strip">>)) IN Evs(Log(<<"strip", "strip">>)) = o /\ \A i \in 1..Len(o) : o[i].e = "ch" => o[i].t \in {"x", "<&", "<", ""}
(* a small reader of what the writer wrote *)
Find(s, i, w) == CHOOSE j \in i..(Len(s) + 1) : (j = Len(s) + 1 \/ SubSeq(s, j, j + Len(w) - 1) = w)
                                                /\ \A k \in i..(j - 1) : SubSeq(s, k, k + Len(w) - 1) /= w
StartsAt(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
RECURSIVE Unesc(_, _)
Unesc(s, i) == IF i > Len(s) THEN ""
               ELSE IF StartsAt(s, i, "&lt;") THEN "<" \o Unesc(s, i + 4) ELSE IF StartsAt(s, i, "&gt;") THEN ">" \o Unesc(s, i + 4)
               ELSE IF StartsAt(s, i, "&amp;") THEN "&" \o Unesc(s, i + 5) ELSE IF StartsAt(s, i, "&quot;") THEN "\"" \o Unesc(s, i + 6)
               ELSE At(s, i) \o Unesc(s, i + 1)
RECURSIVE AttsIn(_, _, _)
AttsIn(s, i, out) ==   \* s is what stands between name and closing, each ` n="v"`
  IF i > Len(s) THEN out
  ELSE LET q == Find(s, i, "=") z == Find(s, q + 2, "\"")
       IN AttsIn(s, z + 1, out \cup {<<SubSeq(s, i + 1, q - 1), Unesc(SubSeq(s, q + 2, z - 1), 1)>>})
RECURSIVE Read(_, _, _, _)
Read(s, i, stk, out) ==
  IF i > Len(s) THEN out
  ELSE IF StartsAt(s, i, "<?xml") THEN Read(s, Find(s, i, "?>") + 3, stk, out)
  ELSE IF StartsAt(s, i, "<!--") THEN LET z == Find(s, i, "-->") IN Read(s, z + 3, stk, Append(out, [e |-> "cm", t |-> SubSeq(s, i + 4, z - 1)]))
  ELSE IF StartsAt(s, i, "<![CDATA[")
       THEN LET z == Find(s, i, "]]>") IN Read(s, z + 3, stk, Append(AddText(Append(out, [e |-> "sc"]), SubSeq(s, i + 9, z - 1)), [e |-> "ec"]))
  ELSE IF StartsAt(s, i, "</") THEN Read(s, Find(s, i, ">") + 1, Front(stk), Append(out, [e |-> "ee", q |-> SubSeq(s, i + 2, Find(s, i, ">") - 1)]))
  ELSE IF StartsAt(s, i, "<")
       THEN LET z == Find(s, i, ">")
                empty == At(s, z - 1) = "/"
                body == SubSeq(s, i + 1, IF empty THEN z - 2 ELSE z - 1)
                sp == Find(body, 1, " ")
                q == SubSeq(body, 1, sp - 1)
                all == AttsIn(body, sp, {})
                decl == {x \in all : NsDecl(<<"", "", x[1]>>)}
                se == [e |-> "se", q |-> q, at |-> all \ decl, ns |-> {<<IF x[1] = "xmlns" THEN "" ELSE SubSeq(x[1], 7, Len(x[1])), x[2]>> : x \in decl}]
            IN Read(s, z + 1, IF empty THEN stk ELSE Append(stk, q), IF empty THEN Append(Append(out, se), [e |-> "ee", q |-> q]) ELSE Append(out, se))
  ELSE LET z == Find(s, i, "<") IN Read(s, z, stk, AddText(out, Unesc(SubSeq(s, i, z - 1), 1)))
Writes == dn => Read(Run(<<F("writer")>>, Cfg, <<>>, es).txt[1], 1, <<>>, <<>>) = Reads(es, FALSE)
(* and the state is empty again at the end *)
Clean1 == dn => LET g == Run(<<F("coalesce"), F("ns"), F("base")>>, Cfg, <<Doc>>, es)
                IN g.st[1].buf = "" /\ Len(g.st[2].ctx) = 1 /\ g.st[3].stack = <<>>
=============================================================================
