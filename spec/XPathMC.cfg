SPECIFICATION Spec
CONSTANT N = 6
CONSTANT Q = 4
INVARIANTS Inv_Partition Inv_Inverse Inv_Order Inv_Compose Inv_Attrs Inv_Text Inv_Pattern Inv_Compare
CHECK_DEADLOCK FALSE
