SPECIFICATION HSpec
VIEW HView
INVARIANT HInv
CONSTRAINT EmitHist
CHECK_DEADLOCK FALSE
