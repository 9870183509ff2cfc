SPECIFICATION Spec
CONSTANTS ND = 1 NP = 3 NM = 2 Labels = {1, 2} Meta = 0
INVARIANTS Mechanism ConservedAndInRange Filters OrderFree
