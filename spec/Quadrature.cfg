SPECIFICATION QSpec
VIEW QView
INVARIANT QInv EmitRule
CHECK_DEADLOCK FALSE
