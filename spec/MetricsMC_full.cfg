SPECIFICATION Spec
CONSTANTS
Words = {1, 2, 3}
MaxLen = 3
MaxGen = 2
MaxRef = 2
N = 2
Nodes = 5
Groups = 3
CHECK_DEADLOCK FALSE
INVARIANTS Bounded CopiesAreSeen CopiesAreNotDiverse Disjoint OrderFree
PROPERTY MoreRefs
