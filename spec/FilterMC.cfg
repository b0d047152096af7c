SPECIFICATION Spec
CONSTANTS N = 5
Rich = TRUE
INVARIANTS Passes Batches Scopes Bases Only Strips Writes Clean1
