------------------------------- MODULE SaxMC -------------------------------
(* Laws of the event streams Sax.tla defines, over every document of a small *)
(* shape: two levels of elements, every choice of declarations and plain or  *)
(* prefixed attributes on each, a defaulted declaration, leaves between.     *)
EXTENDS Sax
VARIABLES doc, cfg
T(s) == << <<"t", s>> >>
At(p, l, v) == [q |-> <<p, l>>, v |-> T(v)]
AttSets == {s \in SUBSET {At("", "xmlns", "u"), At("xmlns", "p", "v"), At("", "xmlnsq", "w"), At("p", "a", "x"), At("", "a", "y")} : TRUE}
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seq1(S \ {x})
Leaves == {[k |-> "tx", v |-> T("t") \o << <<"n">> >>], [k |-> "tx", v |-> <<>>], [k |-> "cd", v |-> T("c")], [k |-> "cm", v |-> T("m")]}
LeafSeqs == {<<>>} \cup {<<x>> : x \in Leaves}
El(q, as, ch) == [k |-> "el", q |-> q, at |-> Seq1(as), ch |-> ch]
Names == {<<"", "e">>, <<"p", "e">>}
Inner == {El(q, as, ch) : q \in Names, as \in AttSets, ch \in LeafSeqs}
Dflt == <<[k |-> "atd", el |-> <<"", "e">>, q |-> <<"xmlns", "p">>, type |-> "CDATA", mode |-> "", dflt |-> TRUE, tok |-> FALSE, v |-> T("d")]>>
Doc(items, root) == [dtd |-> items /= <<>>, name |-> "e", pub |-> "", sys |-> "", items |-> items, pre |-> <<>>, mid |-> <<>>, post |-> <<>>, root |-> root]
Top == {s \in AttSets : At("", "a", "y") \notin s /\ At("", "xmlnsq", "w") \notin s}
Tails == {<<>>, <<CHOOSE x \in Leaves : x.k = "cd">>}
All == <<"c", "l", "d", "t", "e">>
(* doc is the root's shape; the events are a function of it *)
Init == doc \in {Doc(items, El(q, as, <<>>)) : items \in {<<>>, Dflt}, q \in Names, as \in Top}
        /\ cfg \in {[ns |-> n, px |-> p, ext |-> FALSE] : n \in BOOLEAN, p \in BOOLEAN}
Next == doc.root.ch = <<>> /\ cfg' = cfg /\ \E i \in Inner, t \in Tails : doc' = [doc EXCEPT !.root.ch = <<i>> \o t]
Spec == Init /\ [][Next]_<<doc, cfg>>
Stream(c, hs) == Expected(doc, c @@ ("hs" :> hs))
------------------------------------------------------------------------------
RECURSIVE Balanced(_, _)
Balanced(es, st) ==
  IF es = <<>> THEN st = <<>>
  ELSE LET e == Head(es) Close(x) == st /= <<>> /\ Head(st) = x /\ Balanced(Tail(es), Tail(st)) IN
       CASE e[1] = "sd" -> Balanced(Tail(es), << <<"sd">> >> \o st)
         [] e[1] = "ed" -> Close(<<"sd">>)
         [] e[1] = "spm" -> Balanced(Tail(es), << <<"m", {m[1] : m \in e[2]}>> >> \o st)
         [] e[1] = "epm" -> Close(<<"m", {m[1] : m \in e[2]}>>)
         [] e[1] = "se" -> Balanced(Tail(es), << <<"e", e[2], e[3], e[4]>> >> \o st)
         [] e[1] = "ee" -> Close(<<"e", e[2], e[3], e[4]>>)
         [] e[1] = "sc" -> Balanced(Tail(es), << <<"sc">> >> \o st)
         [] e[1] = "ec" -> Close(<<"sc">>)
         [] e[1] = "sdtd" -> Balanced(Tail(es), << <<"sdtd">> >> \o st)
         [] e[1] = "edtd" -> Close(<<"sdtd">>)
         [] OTHER -> Balanced(Tail(es), st)
Law_Balanced == LET f == Stream(cfg, <<"c">>) g == Stream(cfg, <<"c", "l">>) IN
  /\ Balanced(f, <<>>)
  /\ Balanced(g, <<>>)
(* a handler hears the same whoever else listens *)
Of(es, hs) == SelectSeq(es, LAMBDA e : Handler(e) \in hs)
Law_Handlers == \A h \in {"l", "d", "t"} : Of(Stream(cfg, <<h>>), {h}) = Of(Stream(cfg, All), {h})
RECURSIVE TextOf(_)
TextOf(es) == IF es = <<>> THEN "" ELSE (IF Head(es)[1] = "ch" THEN Head(es)[2] ELSE "") \o TextOf(Tail(es))
Law_Text == /\ TextOf(Stream(cfg, All)) = TextOf(Stream(cfg, <<"c">>))
            /\ LET es == Stream(cfg, <<"c">>) IN \A i \in 1..(Len(es) - 1) : ~(es[i][1] = "ch" /\ es[i+1][1] = "ch")
(* the features change how names are told, not which elements and attributes there are *)
Starts(es) == SelectSeq(es, LAMBDA e : e[1] = "se")
QNames(es, keep(_)) == [i \in 1..Len(Starts(es)) |-> <<Starts(es)[i][4], {a \in {<<x[3], x[4]>> : x \in Starts(es)[i][5]} : keep(a[1])}>>]
NotDecl(s) == s /= "xmlns" /\ ~(Len(s) > 5 /\ SubSeq(s, 1, 6) = "xmlns:")
AnyName(s) == TRUE
Raw == Stream([ns |-> FALSE, px |-> TRUE, ext |-> FALSE], All)
Law_Features == /\ cfg.ns => QNames(Stream(cfg, All), NotDecl) = QNames(Raw, NotDecl)
                /\ cfg.ns /\ cfg.px => QNames(Stream(cfg, All), AnyName) = QNames(Raw, AnyName)
                /\ ~cfg.ns => \A i \in 1..Len(Raw) : Raw[i][1] \notin {"spm", "epm"}
Law_Names == LET ss == Starts(Stream(cfg, All)) IN \A i \in 1..Len(ss) :
  /\ \A a, b \in ss[i][5] : a[3] = b[3] => a = b
  /\ cfg.ns => \A a \in ss[i][5] : NotDecl(a[3]) => (a[1] = "" \/ \E j \in 1..Len(Stream(cfg, All)) : LET e == Stream(cfg, All)[j] IN e[1] = "spm" /\ \E m \in e[2] : m[2] = a[1])
=============================================================================
