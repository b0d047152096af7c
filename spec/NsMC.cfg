CONSTANTS PFX = {"", "p"}
 URIS = {"", "u"}
 DEPTH = 3
SPECIFICATION Spec
INVARIANTS Law_Restore Law_Declare Law_Xml Law_Inherit Law_Inverse
