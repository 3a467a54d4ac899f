SPECIFICATION EmitSpec
CHECK_DEADLOCK FALSE
