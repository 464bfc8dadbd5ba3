CONSTANT Seeds <- SeedSet
INIT Init
NEXT Next
INVARIANT Judged PolyJudged
CHECK_DEADLOCK FALSE
