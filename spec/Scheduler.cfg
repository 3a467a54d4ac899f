SPECIFICATION Spec
INVARIANTS InvBad InvOnce InvDurable InvRecent InvOut InvDone
PROPERTIES Terminates NeverLoses
CHECK_DEADLOCK TRUE
