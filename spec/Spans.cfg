SPECIFICATION SpanSpec
VIEW SpanView
CONSTRAINT EmitSpan
INVARIANT BigEnough
CHECK_DEADLOCK FALSE
