------------------------------- MODULE Atts -------------------------------
(* SAX/helpers/AttributesImpl.hpp: a list of <<uri, local, qname, type,       *)
(* value>>, changed by index, read by index, qualified name or (uri, local).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Url == 1
Local == 2
QName == 3
Type == 4
Value == 5
Named(s, u, n) == {i \in 1..Len(s) : s[i][Url] = u /\ s[i][Local] = n}
Qualified(s, q) == {i \in 1..Len(s) : s[i][QName] = q}
First(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Get(s, i, f) == IF i \in 1..Len(s) THEN s[i][f] ELSE ""
(* results: the new list; changing what is not there is refused and changes nothing *)
Valid(s, op, x) == op \in {"add", "addOrReplace", "clear", "copy"} \/ x \in 1..Len(s)
Put(s, x, f, v) == [s EXCEPT ![x][f] = v]
Remove(s, x) == SubSeq(s, 1, x - 1) \o SubSeq(s, x + 1, Len(s))
Apply(s, op, x, a, other) ==
  IF ~Valid(s, op, x) THEN s
  ELSE CASE op = "add" -> Append(s, a)
         [] op = "addOrReplace" -> LET i == First(Named(s, a[Url], a[Local]))
                                   IN IF i = 0 THEN Append(s, a) ELSE Put(s, i, Value, a[Value])
         [] op = "set" -> [s EXCEPT ![x] = a]
         [] op = "remove" -> Remove(s, x)
         [] op = "uri" -> Put(s, x, Url, a[1])
         [] op = "local" -> Put(s, x, Local, a[1])
         [] op = "qname" -> Put(s, x, QName, a[1])
         [] op = "type" -> Put(s, x, Type, a[1])
         [] op = "value" -> Put(s, x, Value, a[1])
         [] op = "clear" -> <<>>
         [] op = "copy" -> other
=============================================================================
