CONSTANTS ACCEPT = 1
 REJECT = 2
 SKIP = 3
 N = 5
SPECIFICATION Spec
INVARIANTS Inv_Inside Inv_Shown Inv_Retrace Inv_Complete Inv_Kids Inv_Sibs Inv_Det
