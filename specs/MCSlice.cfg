CONSTANTS MaxArrs = 4
MaxLen = 5
Steps = 3
SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
