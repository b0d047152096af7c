SPECIFICATION Spec
INVARIANTS Inv_Tree Inv_Partition Inv_NoDup Inv_Normalize Inv_Split Inv_Clone Inv_Lists
PROPERTY RefusedChangesNothing
VIEW View
