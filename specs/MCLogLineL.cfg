CONSTANTS MaxArgs = 2
Texts <- TextsL
Tpls <- TplsL
SPECIFICATION Spec
INVARIANTS HasLine Ends JsonOne
CHECK_DEADLOCK FALSE
CONSTANT Levels = {5, 20, 30, 40, 50, 60, 7}
