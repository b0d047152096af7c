SPECIFICATION Spec
CONSTANT Backend = "expat"
