SPECIFICATION Spec
CONSTANTS MaxW = 2 MaxS = 2 MaxR = 1
INVARIANTS TotalsAreSums NothingCut OnlyTexts InvalidUnsent AttemptsBounded ErrorOnlyAtLast CallIsOneRequest
PROPERTY Served
