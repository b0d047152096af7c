CONSTANTS
 S = {1, 2, 3}
 D = {1, 2}
 L = {1}
 T = {1}
 MapsCount = TRUE
 AddFirst = TRUE
SPECIFICATION Spec
INVARIANTS NoUseAfterFree DocsExactly TypesExactly ListsExactly Counts
