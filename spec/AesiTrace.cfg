SPECIFICATION Spec
CONSTANT Mode = "full"
INVARIANT Canonical
CHECK_DEADLOCK TRUE
