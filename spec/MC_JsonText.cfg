CONSTANTS Long = 5  Deep = FALSE
INIT Init
NEXT Next
INVARIANTS Grammar Characters Encoding Bytes Documents
CHECK_DEADLOCK FALSE
