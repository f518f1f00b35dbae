CONSTANTS MaxFields = 3
Kinds = {"a", "b", "d", "e", "S", "T", "U", "P", "Q"}
SPECIFICATION Spec
INVARIANTS Disjoint Within Aligned
CHECK_DEADLOCK FALSE
