CONSTANTS PFX = {"", "p", "q"}
 URIS = {"u", "v"}
 DEPTH = 2
SPECIFICATION Spec
INVARIANTS Law_Restore Law_Declare Law_Xml Law_Inherit Law_Inverse
