SPECIFICATION Spec
INVARIANTS Law_Balanced Law_Handlers Law_Text Law_Features Law_Names
