SPECIFICATION Spec
CONSTANTS N = 6
Rich = TRUE
INVARIANTS Passes Batches Scopes Bases Only Strips Writes Clean1
