SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TempGone StatusTells OneOutput Transparent
PROPERTIES OthersKept
