SPECIFICATION SSpec
VIEW SView
INVARIANT SInv
CONSTRAINT EmitSub
CHECK_DEADLOCK FALSE
