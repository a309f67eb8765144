SPECIFICATION Spec
INVARIANT Promised
CHECK_DEADLOCK TRUE
