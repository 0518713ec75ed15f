SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Covers Stops OnTime
PROPERTIES Ahead Finishes
CONSTANTS
 Bss = {0, 1, 2}
 Nes <- NesV
 Epss <- EpsV
 Pats = {1, 2}
 Nts = {1, 2, 3}
 Lr = 250000
