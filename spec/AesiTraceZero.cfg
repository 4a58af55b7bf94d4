SPECIFICATION Spec
CONSTANT Mode = "zero"
INVARIANT Canonical
CHECK_DEADLOCK TRUE
