------------------------------- MODULE DomIo -------------------------------
(* The DOM a document is built into, and what writing a DOM has to preserve. *)
EXTENDS Sax
------------------------------------------------------------------------------
(* Building. From the events of Sax.tla to a sequence of tokens that spells  *)
(* the tree: text and CDATA sections apart, the inside of the DTD left out,  *)
(* the content of external entities in place or, where it is unknown or      *)
(* empty, a reference.                                                       *)
AttTok(a) == IF a[3] = "xmlns" \/ (Len(a[3]) > 5 /\ SubSeq(a[3], 1, 6) = "xmlns:") THEN <<"", "", a[3], a[4]>> ELSE a
RECURSIVE Fold(_, _, _, _, _)
Fold(es, i, inDtd, opens, acc) ==
  IF i > Len(es) THEN acc
  ELSE LET e == es[i] Go(a) == Fold(es, i + 1, inDtd, opens, a) IN
       CASE e[1] \in {"sd", "ed", "spm", "epm", "sc", "ec"} -> Go(acc)
         [] e[1] = "sdtd" -> Fold(es, i + 1, TRUE, opens, Append(acc, e))
         [] e[1] = "edtd" -> Fold(es, i + 1, FALSE, opens, acc)
         [] inDtd -> Go(acc)
         [] e[1] = "se" -> Go(Append(acc, <<"se", e[2], e[3], e[4], {AttTok(a) : a \in e[5]}>>))
         [] e[1] = "ee" -> Go(Append(acc, <<"ee">>))
         [] e[1] = "ch" -> Go(Append(acc, <<IF i > 1 /\ es[i-1] = <<"sc">> THEN "cd" ELSE "tx", e[2]>>))
         [] e[1] = "cm" -> Go(Append(acc, e))
         [] e[1] = "pi" -> Go(Append(acc, e))
         [] e[1] = "sk" -> Go(Append(acc, <<"er", e[2]>>))
         [] e[1] = "sen" -> Fold(es, i + 1, inDtd, Append(opens, Len(acc)), acc)
         [] e[1] = "een" -> Fold(es, i + 1, inDtd, SubSeq(opens, 1, Len(opens) - 1),
                                 IF Len(acc) = opens[Len(opens)] THEN Append(acc, <<"er", e[2]>>) ELSE acc)
         [] OTHER -> Go(Append(acc, e))
Built(d, ext) == Fold(Expected(d, [ns |-> TRUE, px |-> TRUE, ext |-> ext, hs |-> <<"c", "l">>]), 1, FALSE, <<>>, <<>>)
Malformed(d, ext) == <<"bad">> \in Range(Expected(d, [ns |-> TRUE, px |-> TRUE, ext |-> ext, hs |-> <<"c", "l">>]))
Entities(d) == {<<i.n, IF i.k \in {"xent", "uent"} THEN i.pub ELSE "", IF i.k \in {"xent", "uent"} THEN i.sys ELSE "", IF i.k = "uent" THEN i.nota ELSE "">> : i \in {x \in Range(d.items) : x.k \in {"ent", "ment", "xent", "uent"}}}
Notations(d) == {<<i.n, i.pub, i.sys>> : i \in {x \in Range(d.items) : x.k = "not"}}
------------------------------------------------------------------------------
(* a tree as tokens *)
RECURSIVE Spell(_), Spells(_)
Spells(ns) == Flat([i \in 1..Len(ns) |-> Spell(ns[i])])
Spell(n) ==
  CASE n.k \in {"doc", "frag"} -> Spells(n.ch)
    [] n.k = "el" -> << <<"se", n.u, n.l, n.q, {AttTok(n.at[i]) : i \in 1..Len(n.at)}>> >> \o Spells(n.ch) \o << <<"ee">> >>
    [] n.k \in {"tx", "cd", "cm"} -> << <<n.k, n.v>> >>
    [] n.k = "pi" -> << <<"pi", n.q, n.v>> >>
    [] n.k = "er" -> << <<"er", n.q>> >>
    [] n.k = "dt" -> << <<"sdtd", n.q, n.pub, n.sys>> >>
    [] OTHER -> << <<"other", n.k>> >>
(* what of it must survive writing: names by namespace and local part, the   *)
(* attributes other than declarations, and runs of character data            *)
Kept(t) == CASE t[1] = "se" -> <<"se", t[2], t[3], {<<a[1], a[2], a[4]>> : a \in {b \in t[5] : b[2] /= ""}}>>
             [] t[1] \in {"tx", "cd"} -> <<"ch", t[2]>>
             [] OTHER -> t
Essence(ts) == LET ks == SelectSeq(ts, LAMBDA t : t[1] /= "sdtd") IN Merge([i \in 1..Len(ks) |-> Kept(ks[i])], <<>>)
------------------------------------------------------------------------------
(* A writer that preserves it: the declarations each element needs, given    *)
(* the prefixes in scope. Trees here have names as <<uri, prefix, local>>.   *)
(* This is one admissible choice of prefixes; DomIoMC checks it against the  *)
(* namespace rules of Sax.tla.                                               *)
Fresh(taken) == CHOOSE p \in {"a0", "a1", "a2", "a3", "a4"} : p \notin taken
PrefixFor(sc, nm, attr) ==        \* prefixes in scope that stand for the namespace
  {p \in DOMAIN sc : sc[p] = nm[1] /\ ~(attr /\ p = "")}
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* state: scope outside, declarations here, prefixes relied on here; result: prefix and the new state *)
NameIt(sc, cur, used, nm, attr) ==
  LET all == [p \in DOMAIN sc \cup DOMAIN cur |-> IF p \in DOMAIN cur THEN cur[p] ELSE sc[p]]
      ps == PrefixFor(all, nm, attr)
  IN IF nm[1] = XMLURI THEN [p |-> "xml", cur |-> cur, used |-> used]
     ELSE IF nm[1] = "" THEN [p |-> "", cur |-> IF ~attr /\ Lookup(sc, "") /= "" THEN With(cur, "", "") ELSE cur, used |-> used]
     ELSE IF ps /= {} THEN LET p == IF nm[2] \in ps THEN nm[2] ELSE CHOOSE x \in ps : TRUE IN [p |-> p, cur |-> cur, used |-> used \cup {p}]
     ELSE LET p == IF attr /\ (nm[2] = "" \/ nm[2] \in DOMAIN cur \cup used) THEN Fresh(DOMAIN all \cup used) ELSE nm[2]
          IN [p |-> p, cur |-> With(cur, p, nm[1]), used |-> used \cup {p}]
RECURSIVE NameAll(_, _, _, _, _, _)
NameAll(sc, cur, used, as, i, acc) ==
  IF i > Len(as) THEN [cur |-> cur, at |-> acc]
  ELSE LET x == NameIt(sc, cur, used, as[i].nm, TRUE) IN NameAll(sc, x.cur, x.used, as, i + 1, Append(acc, [q |-> <<x.p, as[i].nm[3]>>, v |-> << <<"t", as[i].v>> >>]))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
RECURSIVE Written(_, _)
Written(sc, n) ==
  IF n.k /= "el" THEN n
  ELSE LET e == NameIt(sc, <<>>, {}, n.nm, FALSE)
           r == NameAll(sc, e.cur, e.used, n.at, 1, <<>>)
           s2 == [p \in DOMAIN sc \cup DOMAIN r.cur |-> IF p \in DOMAIN r.cur THEN r.cur[p] ELSE sc[p]]
           ds == SeqOf(DOMAIN r.cur)
       IN [k |-> "el", q |-> <<e.p, n.nm[3]>>,
           at |-> r.at \o [i \in 1..Len(ds) |-> [q |-> IF ds[i] = "" THEN <<"", "xmlns">> ELSE <<"xmlns", ds[i]>>, v |-> << <<"t", r.cur[ds[i]]>> >>]],
           ch |-> [i \in 1..Len(n.ch) |-> Written(s2, n.ch[i])]]
RECURSIVE Meant(_), Means(_)
Means(ns) == Flat([i \in 1..Len(ns) |-> Meant(ns[i])])
Meant(n) == IF n.k = "el" THEN << <<"se", n.nm[1], n.nm[3], {<<n.at[i].nm[1], n.at[i].nm[3], n.at[i].v>> : i \in 1..Len(n.at)}>> >> \o Means(n.ch) \o << <<"ee">> >>
            ELSE << <<"ch", n.v[1][2]>> >>
=============================================================================
