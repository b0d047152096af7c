SPECIFICATION Spec
CONSTANT NMods = 3
CONSTANT NItems = 5
CONSTANT NStr = 6
CONSTANT NIts = 5
CONSTANT NNodes = 6
CONSTANT NKeys = 3
INVARIANTS Inv_Precedence Inv_Include Inv_Beats Inv_Comment Inv_PI Inv_Element Inv_Compare Inv_Doc Inv_Sorted
CHECK_DEADLOCK FALSE
