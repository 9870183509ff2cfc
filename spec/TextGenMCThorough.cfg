SPECIFICATION Spec
CONSTANTS MaxN = 2 MaxR = 3 Ms = {"ar", "bias", "cr", "crel", "faith", "hal", "coh", "tox"}
INVARIANTS InRange FromScratch AttemptsBounded ErrorOnlyIfAllFailed AttemptsAreFailures RefusedUnasked CallsBounded

