SPECIFICATION JSpec
CONSTANT Failed <- Verdict
CHECK_DEADLOCK FALSE
