SPECIFICATION Spec
CONSTANTS N = 8
Rich = FALSE
INVARIANTS Passes Batches Scopes Bases Only Strips Writes Clean1
