SPECIFICATION Spec
CONSTANTS ND = 2 NP = 2 NM = 1 Labels = {1, 2, 3} Meta = 1
INVARIANTS Mechanism ConservedAndInRange Filters OrderFree
