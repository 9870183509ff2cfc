SPECIFICATION Spec
CONSTANTS MaxW = 2 MaxS = 3 MaxR = 2
INVARIANTS TotalsAreSums NothingCut OnlyTexts InvalidUnsent AttemptsBounded ErrorOnlyAtLast CallIsOneRequest
PROPERTY Served
