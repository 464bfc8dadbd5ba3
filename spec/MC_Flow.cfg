SPECIFICATION Spec
INVARIANTS NoLeak Indexing Widths
CHECK_DEADLOCK FALSE
