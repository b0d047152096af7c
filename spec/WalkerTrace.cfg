CONSTANTS ACCEPT = 1
 REJECT = 2
 SKIP = 3
SPECIFICATION Spec
