-------------------------------- MODULE NsMC --------------------------------
EXTENDS NsSupport
CONSTANTS PFX, URIS, DEPTH
VARIABLES st
Init == st = Base
Next == \/ Len(st) < DEPTH /\ st' = Push(st)
        \/ Len(st) > 1 /\ st' = Pop(st)
        \/ \E p \in PFX \cup {"xml", "xmlns"}, u \in URIS : st' = Declare(st, p, u)
        \/ st' = Base
Spec == Init /\ [][Next]_st
(* leaving a context restores what was there; a declaration is seen at once; xml is always there *)
Law_Restore == \A p \in PFX, u \in URIS : InScope(Pop(Declare(Push(st), p, u))) = InScope(st)
Law_Declare == \A p \in PFX, u \in URIS : /\ Uri(Declare(st, p, u), p) = u
                                          /\ \A q \in PFX \ {p} : Uri(Declare(st, p, u), q) = Uri(st, q)
Law_Xml == Uri(st, "xml") = XMLURI /\ Uri(st, "xmlns") = ""
Law_Inherit == InScope(Push(st)) = InScope(st)
Law_Inverse == \A p \in Prefixes(st) : p \in PrefixesFor(st, Uri(st, p))
=============================================================================
