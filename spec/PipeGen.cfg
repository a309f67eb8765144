SPECIFICATION GSpec
CONSTRAINT Ended
CHECK_DEADLOCK FALSE
