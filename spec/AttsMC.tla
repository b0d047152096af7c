------------------------------ MODULE AttsMC ------------------------------
(* Two lists over two names and values: lookups agree with each other, adding *)
(* or replacing keeps names unique, refused changes change nothing.           *)
EXTENDS Atts
VARIABLES a, b, uniq     \* uniq: a only saw addOrReplace, value, remove, clear
Vals == {<<u, "n", q, "T", v>> : u \in {"", "u"}, q \in {"n", "p:n"}, v \in {"", "v"}}
Init == a = <<>> /\ b = <<>> /\ uniq = TRUE
Max == 2
Do(op, x, arg) ==
  /\ a' = Apply(a, op, x, arg, b) /\ Len(a') <= Max /\ UNCHANGED b
  /\ uniq' = (uniq /\ op \in {"addOrReplace", "value", "remove", "clear", "type", "qname"})
  /\ Assert(Valid(a, op, x) \/ a' = a, "refused but changed")
  /\ Assert(op /= "add" \/ (Len(a') = Len(a) + 1 /\ SubSeq(a', 1, Len(a)) = a), "add is not at the end")
  /\ Assert(op /= "remove" \/ ~Valid(a, op, x) \/ \A i \in 1..Len(a') : a'[i] = a[IF i < x THEN i ELSE i + 1], "remove moved something")
  /\ Assert(op \notin {"addOrReplace"} \/ Get(a', First(Named(a', arg[1], arg[2])), Value) = arg[5], "addOrReplace does not show")
Next == \/ \E op \in {"add", "addOrReplace"}, v \in Vals : Do(op, 1, v)
        \/ \E x \in 0..Max, v \in Vals : Do("set", x, v)
        \/ \E x \in 0..Max : Do("remove", x, <<>>)
        \/ \E x \in 0..Max, s \in {"", "u"} : Do("uri", x, <<s>>) \/ Do("value", x, <<s>>)
        \/ Do("clear", 1, <<>>) \/ Do("copy", 1, <<>>)
        \/ (a' = a /\ b' = a /\ uniq' = uniq)
Spec == Init /\ [][Next]_<<a, b, uniq>>
Unique == uniq => \A u \in {"", "u"} : Cardinality(Named(a, u, "n")) <= 1
Agree == \A i \in 1..Len(a) : LET f == First(Named(a, a[i][Url], a[i][Local])) g == First(Qualified(a, a[i][QName]))
                              IN f \in 1..i /\ g \in 1..i /\ a[f][Url] = a[i][Url] /\ a[g][QName] = a[i][QName]
=============================================================================
