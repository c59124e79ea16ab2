INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOk LawCumIncr LawDevVal LawPartition LawTotals LawGrain LawArith
CHECK_DEADLOCK FALSE
