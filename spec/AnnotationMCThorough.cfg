SPECIFICATION Spec
CONSTANTS MaxL = 3 MaxA = 2 MaxM = 3 Px = 4
INVARIANTS Usable Labelled Scored Disjoint NothingLost OnlyLess FirstKept UntouchedIfDisjoint
