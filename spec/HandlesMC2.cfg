CONSTANTS
 S = {1, 2, 3, 4}
 D = {1, 2}
 L = {1, 2}
 T = {1}
 MapsCount = TRUE
 AddFirst = TRUE
SPECIFICATION Spec
INVARIANTS NoUseAfterFree DocsExactly TypesExactly ListsExactly Counts
