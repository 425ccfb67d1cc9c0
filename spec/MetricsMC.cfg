SPECIFICATION Spec
CONSTANTS
Words = {1, 2}
MaxLen = 3
MaxGen = 2
MaxRef = 2
N = 2
Nodes = 4
Groups = 2
CHECK_DEADLOCK FALSE
INVARIANTS Bounded CopiesAreSeen CopiesAreNotDiverse Disjoint OrderFree
PROPERTY MoreRefs
