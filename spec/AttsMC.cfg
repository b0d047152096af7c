SPECIFICATION Spec
INVARIANTS Unique Agree
