SPECIFICATION FSpec
INVARIANT FInv
INVARIANT EmitFun
CHECK_DEADLOCK FALSE
