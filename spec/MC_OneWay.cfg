INIT Init
NEXT Next
VIEW View
CONSTRAINT Bounded
INVARIANT Inv
PROPERTY DropsOnly
CHECK_DEADLOCK FALSE
