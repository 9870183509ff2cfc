SPECIFICATION Spec
CONSTANTS MaxN = 2 MaxR = 0 Ms = {"ac", "cp"}
INVARIANTS InRange FromScratch AttemptsBounded ErrorOnlyIfAllFailed AttemptsAreFailures RefusedUnasked CallsBounded

