SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
INVARIANT StepInvariants
INVARIANT ResultInvariants
INVARIANT WriteIsPrefix
INVARIANT OrderIsLocal
INVARIANT RoundTrip
INVARIANT WriteBack
INVARIANT CutFails
INVARIANT FailedWrite
INVARIANT FramesHold
INVARIANT FramesRead
INVARIANT NeverStuck
INVARIANT Emit
PROPERTY OnlyForward
