INIT Init
NEXT Next
VIEW View
CONSTRAINT Bounded
INVARIANT Inv
CHECK_DEADLOCK FALSE
