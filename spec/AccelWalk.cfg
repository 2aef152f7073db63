SPECIFICATION WSpec
CHECK_DEADLOCK FALSE
