INIT LInit
NEXT LNext
CONSTANT N = 5
INVARIANT IsPerm
INVARIANT UndoesRows
INVARIANT SymOk
CHECK_DEADLOCK FALSE
