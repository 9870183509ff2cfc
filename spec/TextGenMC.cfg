SPECIFICATION Spec
CONSTANTS MaxN = 2 MaxR = 1 Ms = {"ar", "bias", "cr", "crel", "faith", "hal", "coh", "tox"}
INVARIANTS InRange FromScratch AttemptsBounded ErrorOnlyIfAllFailed AttemptsAreFailures RefusedUnasked CallsBounded
PROPERTY Ends
