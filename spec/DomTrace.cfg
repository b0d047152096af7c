SPECIFICATION Spec
INVARIANT StateOK
VIEW TraceView
