SPECIFICATION SSpec
CHECK_DEADLOCK FALSE
INVARIANT Judge
