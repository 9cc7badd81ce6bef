SPECIFICATION Spec
VIEW TermView
INVARIANT Inv
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
