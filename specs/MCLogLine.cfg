CONSTANTS MaxArgs = 2
Texts <- TextsQ
Tpls <- TplsQ
SPECIFICATION Spec
INVARIANTS HasLine Ends JsonOne
CHECK_DEADLOCK FALSE
CONSTANT Levels = {20, 40}
