SPECIFICATION FairSpec
CONSTANTS
 Inputs <- AllInputs
 Plans <- AllPlans
 UseKinds = {"ok", "slow", "bytes", "stall", "partstall", "noread"}
 MaxUses = 2
 Defects = {}
INVARIANTS OpenOnlyAfterInit InitOnlyAfterVersion FailureIsDeserved NoContact NeverClear Verified OnlyWhenAsked FilesUsable
PROPERTIES Ends NoneLeft Returns
CHECK_DEADLOCK FALSE
