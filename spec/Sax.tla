-------------------------------- MODULE Sax --------------------------------
(* What an XML reader reports. A document is an abstract tree of content;    *)
(* Expected(doc, cfg) is the event sequence SAX2, XML 1.0 and Namespaces in  *)
(* XML define for it: namespace resolution, attribute value normalisation,   *)
(* line ends, entity expansion, attribute defaults, declaration events. Text *)
(* events are maximal runs (how a parser cuts text is its own business).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in 1..Len(s)}
XMLURI == "http://www.w3.org/XML/1998/namespace"
QStr(q) == IF q[1] = "" THEN q[2] ELSE q[1] \o ":" \o q[2]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))
------------------------------------------------------------------------------
(* text: pieces are literal text, line ends, tabs, character references and  *)
(* references to general entities                                            *)
Entity(d, n) == LET is == {i \in 1..Len(d.items) : d.items[i].k \in {"ent", "ment", "xent"} /\ d.items[i].n = n} IN d.items[CHOOSE i \in is : TRUE]
RECURSIVE Text(_, _)
Text(d, ps) == Concat([i \in 1..Len(ps) |->
  LET p == ps[i] IN CASE p[1] = "t" -> p[2] [] p[1] = "n" -> "{a}" [] p[1] = "b" -> "{9}" [] p[1] = "c" -> p[2] [] p[1] = "e" -> Text(d, Entity(d, p[2]).v)])
RECURSIVE AttText(_, _)
AttText(d, ps) == Concat([i \in 1..Len(ps) |->
  LET p == ps[i] IN CASE p[1] = "t" -> p[2] [] p[1] = "n" -> " " [] p[1] = "b" -> " " [] p[1] = "c" -> p[2] [] p[1] = "e" -> AttText(d, Entity(d, p[2]).v)])
EntityValue(ps) == Concat([i \in 1..Len(ps) |->
  LET p == ps[i] IN CASE p[1] = "t" -> p[2] [] p[1] = "n" -> "{a}" [] p[1] = "b" -> "{9}" [] p[1] = "c" -> p[2] [] p[1] = "e" -> "&" \o p[2] \o ";"])
RECURSIVE Squeeze(_, _, _)
Squeeze(s, i, acc) ==     \* drop leading and trailing spaces, one space for a run
  IF i > Len(s) THEN acc
  ELSE LET ch == SubSeq(s, i, i) IN
       IF ch /= " " THEN Squeeze(s, i + 1, acc \o ch)
       ELSE IF acc = "" \/ (\A j \in i..Len(s) : SubSeq(s, j, j) = " ") \/ SubSeq(acc, Len(acc), Len(acc)) = " " THEN Squeeze(s, i + 1, acc)
       ELSE Squeeze(s, i + 1, acc \o ch)
------------------------------------------------------------------------------
(* attributes: those given, then the defaults of the element type not given  *)
AttDecls(d, el) == {i \in 1..Len(d.items) : d.items[i].k = "atd" /\ QStr(d.items[i].el) = QStr(el)}
IsDecl(q) == q[1] = "xmlns" \/ (q[1] = "" /\ q[2] = "xmlns")
DeclPrefix(q) == IF q[1] = "" THEN "" ELSE q[2]
Value(d, el, q, v) ==
  LET ds == {i \in AttDecls(d, el) : QStr(d.items[i].q) = QStr(q) /\ d.items[i].tok}
  IN IF ds = {} THEN AttText(d, v) ELSE Squeeze(AttText(d, v), 1, "")
AllAtts(d, el) ==
  LET given == {[q |-> el.at[i].q, v |-> Value(d, el.q, el.at[i].q, el.at[i].v), sp |-> TRUE] : i \in 1..Len(el.at)}
      names == {QStr(el.at[i].q) : i \in 1..Len(el.at)}
      dfl == {[q |-> d.items[i].q, v |-> Value(d, el.q, d.items[i].q, d.items[i].v), sp |-> FALSE] :
               i \in {j \in AttDecls(d, el.q) : d.items[j].dflt /\ QStr(d.items[j].q) \notin names}}
  IN given \cup dfl
(* a scope is a function from declared prefixes to URIs *)
Lookup(sc, p) == IF p \in DOMAIN sc THEN sc[p] ELSE ""
BaseScope == "xml" :> XMLURI
Extend(sc, atts) == LET ds == {a \in atts : IsDecl(a.q)}
                    IN [p \in DOMAIN sc \cup {DeclPrefix(a.q) : a \in ds} |->
                          IF \E a \in ds : DeclPrefix(a.q) = p THEN (CHOOSE a \in ds : DeclPrefix(a.q) = p).v ELSE sc[p]]
(* xml is always bound, so declaring it begins nothing *)
Mappings(atts) == {<<DeclPrefix(a.q), a.v>> : a \in {b \in atts : IsDecl(b.q) /\ DeclPrefix(b.q) /= "xml"}}
ReportedAtts(cfg, sc, atts) ==
  IF ~cfg.ns THEN {<<"", "", QStr(a.q), a.v>> : a \in atts}
  ELSE {<<IF a.q[1] = "" THEN "" ELSE Lookup(sc, a.q[1]), a.q[2], QStr(a.q), a.v>> : a \in {b \in atts : ~IsDecl(b.q)}}
       \cup (IF cfg.px THEN {<<"", "", QStr(a.q), a.v>> : a \in {b \in atts : IsDecl(b.q)}} ELSE {})
Name(cfg, sc, q) == IF cfg.ns THEN <<Lookup(sc, q[1]), q[2], QStr(q)>> ELSE <<"", "", QStr(q)>>
------------------------------------------------------------------------------
RECURSIVE Ev(_, _, _, _), Evs(_, _, _, _)
Evs(d, cfg, sc, ns) == Flat([i \in 1..Len(ns) |-> Ev(d, cfg, sc, ns[i])])
Ev(d, cfg, sc, n) ==
  CASE n.k = "el" ->
         LET atts == AllAtts(d, n) s2 == Extend(sc, atts) nm == Name(cfg, s2, n.q) ms == Mappings(atts)
         IN (IF cfg.ns /\ ms /= {} THEN << <<"spm", ms>> >> ELSE <<>>)
            \o << <<"se", nm[1], nm[2], nm[3], ReportedAtts(cfg, s2, atts)>> >>
            \o Evs(d, cfg, s2, n.ch)
            \o << <<"ee", nm[1], nm[2], nm[3]>> >>
            \o (IF cfg.ns /\ ms /= {} THEN << <<"epm", {<<m[1]>> : m \in ms}>> >> ELSE <<>>)
    [] n.k = "tx" -> << <<"ch", Text(d, n.v)>> >>
    [] n.k = "cd" -> << <<"sc">>, <<"ch", Text(d, n.v)>>, <<"ec">> >>
    [] n.k = "cm" -> << <<"cm", Text(d, n.v)>> >>
    [] n.k = "pi" -> << <<"pi", n.s, Text(d, n.v)>> >>
    [] n.k = "er" -> LET e == Entity(d, n.s) IN
         IF e.k = "ment" THEN Evs(d, cfg, sc, e.ch)
         ELSE IF cfg.ext THEN << <<"sen", e.n>> >> \o Evs(d, cfg, sc, e.ch) \o << <<"een", e.n>> >>
         ELSE << <<"sk", e.n>> >>
    [] n.k = "bad" -> << <<"bad">> >>
RECURSIVE ModelStr(_)
Joined(ss, by) == Concat([i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE by \o ss[i]])
ModelStr(m) ==
  CASE m.t \in {"EMPTY", "ANY"} -> m.t
    [] m.t = "mixed" -> "(" \o Joined(<<"#PCDATA">> \o [i \in 1..Len(m.ch) |-> m.ch[i].n], "|") \o ")" \o m.q
    [] m.t = "n" -> m.n \o m.q
    [] OTHER -> "(" \o Joined([i \in 1..Len(m.ch) |-> ModelStr(m.ch[i])], IF m.t = "seq" THEN "," ELSE "|") \o ")" \o m.q
ItemEv(d, i) ==
  CASE i.k = "ent" -> << <<"ient", i.n, EntityValue(i.v)>> >>
    [] i.k = "ment" -> << <<"ient", i.n, i.raw>> >>
    [] i.k = "xent" -> << <<"xent", i.n, i.pub, i.sys>> >>
    [] i.k = "uent" -> << <<"uent", i.n, i.pub, i.sys, i.nota>> >>
    [] i.k = "not" -> << <<"not", i.n, i.pub, i.sys>> >>
    [] i.k = "eld" -> << <<"eld", QStr(i.q), ModelStr(i.m)>> >>
    [] i.k = "atd" -> << <<"atd", QStr(i.el), QStr(i.q), i.type, i.mode, IF i.dflt THEN Value(d, i.el, i.q, i.v) ELSE "">> >>
    [] i.k \in {"cm", "pi"} -> Ev(d, [ns |-> TRUE], BaseScope, i)
DtdEv(d, cfg) ==
  IF ~d.dtd THEN <<>>
  ELSE << <<"sdtd", d.name, d.pub, d.sys>> >> \o Flat([i \in 1..Len(d.items) |-> ItemEv(d, d.items[i])])
       \o (IF cfg.ext /\ d.sys /= "" THEN << <<"sen", "[dtd]">>, <<"een", "[dtd]">> >> ELSE <<>>) \o << <<"edtd">> >>
AllEv(d, cfg) == << <<"sd">> >> \o Evs(d, cfg, BaseScope, d.pre) \o DtdEv(d, cfg) \o Evs(d, cfg, BaseScope, d.mid)
                 \o Ev(d, cfg, BaseScope, d.root) \o Evs(d, cfg, BaseScope, d.post) \o << <<"ed">> >>
------------------------------------------------------------------------------
(* which handler hears which event *)
Handler(e) == CASE e[1] \in {"sd", "ed", "spm", "epm", "se", "ee", "ch", "pi", "sk"} -> "c"
                [] e[1] \in {"sdtd", "edtd", "sc", "ec", "cm", "sen", "een"} -> "l"
                [] e[1] \in {"eld", "atd", "ient", "xent"} -> "d"
                [] e[1] \in {"not", "uent"} -> "t"
                [] e[1] = "fatal" -> "e"
                [] OTHER -> "any"
Heard(es, hs) == SelectSeq(es, LAMBDA e : Handler(e) \in Range(hs) \cup {"any"})
RECURSIVE Merge(_, _)
Merge(es, acc) ==          \* join neighbouring text, drop empty text
  IF es = <<>> THEN acc
  ELSE LET e == Head(es) n == Len(acc) IN
       IF e[1] = "ch" /\ e[2] = "" THEN Merge(Tail(es), acc)
       ELSE IF e[1] = "ch" /\ n > 0 /\ acc[n][1] = "ch" THEN Merge(Tail(es), [acc EXCEPT ![n] = <<"ch", acc[n][2] \o e[2]>>])
       ELSE Merge(Tail(es), Append(acc, e))
Expected(d, cfg) == Merge(Heard(AllEv(d, cfg), cfg.hs), <<>>)
=============================================================================
