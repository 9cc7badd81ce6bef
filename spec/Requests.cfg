SPECIFICATION RSpec
VIEW RView
INVARIANT RInv
CONSTRAINT EmitReq
CHECK_DEADLOCK FALSE
