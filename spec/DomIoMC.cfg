CONSTANTS URIS = {"", "u", "v"}
 PFX = {"", "p", "q"}
SPECIFICATION Spec
INVARIANTS Law_RoundTrip Law_WellFormed
