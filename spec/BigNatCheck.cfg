SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Seeds = {1, 2, 3, 5, 8, 13, 21, 34, 55, 89}
INVARIANTS Agree AgreeUnary
CHECK_DEADLOCK FALSE
