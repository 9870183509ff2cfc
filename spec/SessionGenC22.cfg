SPECIFICATION Spec
CONSTANTS Depth = 14 ND = 6 NQ = 8 NF = 3 Paths = {1, 2, 3, 4} MaxLd = 3 InOrder = FALSE BadRate = 0 Odd = 0
CONSTANT Menu <- MenuC22
