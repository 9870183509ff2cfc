SPECIFICATION Spec
CONSTANTS MaxL = 2 MaxA = 1 MaxM = 3 Px = 3
INVARIANTS Usable Labelled Scored Disjoint NothingLost OnlyLess FirstKept UntouchedIfDisjoint
