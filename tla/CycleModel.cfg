SPECIFICATION Spec
CONSTANT Cell = {1, 2, 3, 4, 5, 6}
INVARIANT CyclesAreClasses
INVARIANT BasesAreClasses
INVARIANT SizesCount
INVARIANT NextIsPermutation
PROPERTY NeverSplit
CHECK_DEADLOCK FALSE
