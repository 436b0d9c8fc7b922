SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY Growing
PROPERTY Isolated
CHECK_DEADLOCK FALSE
