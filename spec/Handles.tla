------------------------------ MODULE Handles ------------------------------
(* Who keeps what alive.  A handle is a slot that refers to something in a group: a document with all its nodes, lists and   *)
(* maps, or a document type that belongs to no document yet.  A group is alive exactly while some slot refers into it; a      *)
(* document type given to a document takes its handles into that document's group.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
None == <<0, 0>>                                   \* <<group, walker object>>
Alive(slots, g) == \E i \in 1..Len(slots) : slots[i][1] = g
ObAlive(slots, o) == \E i \in 1..Len(slots) : slots[i][2] = o
Put(slots, d, v) == [slots EXCEPT ![d] = v]
Merge(slots, from, to) == [i \in 1..Len(slots) |-> IF slots[i][1] = from THEN <<to, slots[i][2]>> ELSE slots[i]]
(* what an operation's result belongs to *)
Fresh == {"createDocument", "createDoctype", "parse", "cloneDocument", "cloneDoctype"}
Quiet == {"setAttribute", "removeAttribute", "setAttributeNS", "normalize", "setValue", "walkTo"}      \* no handle results
Takes == {"appendChild", "insertBefore", "replaceChild"}                                              \* may adopt a document type
(* what may be in slot d afterwards: g, the receiver's group; new, newObj: the next unused numbers *)
Result(op, old, g, new, newObj) ==
  CASE op \in Fresh -> {<<new, 0>>}
    [] op = "walker" -> {<<g, newObj>>}
    [] op = "createDocumentWith" -> {<<new, 0>>}
    [] OTHER -> {None, <<g, 0>>}
NeverNull == Takes \cup {"removeChild", "importNode", "cloneNode", "splitText", "childNodes", "attributes", "entities", "notations", "elementsByName", "select",
                         "createElement", "createElementNS", "createTextNode", "createComment", "createFragment", "createAttribute", "createPI",
                         "createReference", "createCDATA", "removeAttributeNode", "removeNamed"}
(* After(st, e): the slot contents a step may leave.  unowned: the groups that are document types without a document *)
After(slots, unowned, groups, objs, e) ==
  LET new == groups + 1
      g == IF e.r = 0 THEN 0 ELSE slots[e.r][1]
      given == {x \in {IF e.a = 0 THEN 0 ELSE slots[e.a][1], IF e.b = 0 THEN 0 ELSE slots[e.b][1]} : x \in unowned /\ x /= g}
      \* a refused document type may already have been taken in
      merges == IF e.op \in Takes /\ g \notin unowned THEN {m \in SUBSET given : TRUE} ELSE {{}}
      Apply(m) == [i \in 1..Len(slots) |-> IF slots[i][1] \in m THEN <<g, slots[i][2]>> ELSE slots[i]]
      with(m) ==
        LET ms == Apply(m)
        IN IF e.res = "err" \/ e.op \in Quiet THEN {ms}
           ELSE IF e.op = "drop" THEN {Put(ms, e.d, None)}
           ELSE IF e.op = "copy" THEN {Put(ms, e.d, ms[e.r])}
           ELSE IF e.op = "createDocumentWith" THEN {Put(Merge(ms, g, new), e.d, <<new, 0>>)}
           ELSE {Put(ms, e.d, v) : v \in {w \in Result(e.op, ms[e.d], g, new, objs + 1) : e.op \in NeverNull => w /= None}}
  IN UNION {with(m) : m \in merges}
(* what the library says about groups and walkers agrees with who is referred to *)
GroupsBad(slots, merged, gr) ==
  {g \in 1..Len(gr) : IF g \in merged THEN gr[g][1] = 0
                      ELSE \/ gr[g][1] /= 0
                           \/ (gr[g][2] = 1) /= Alive(slots, g)
                           \/ gr[g][4] /= (IF Alive(slots, g) THEN gr[g][3] ELSE 0)}
ObjectsBad(slots, ob) == {o \in 1..Len(ob) : (ob[o] = 1) /= ObAlive(slots, o)}
=============================================================================
