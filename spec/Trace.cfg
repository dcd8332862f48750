SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
INVARIANT StepInvariants
INVARIANT ResultInvariants
