CONSTANTS MaxArrs = 4
MaxLen = 5
Steps = 4
SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
