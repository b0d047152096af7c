CONSTANT MAXSEG = 2
SPECIFICATION Spec
INVARIANTS Law_NoDots Law_Absolute Law_Idempotent Law_Self Law_Fragment
