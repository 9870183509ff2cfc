SPECIFICATION Spec
CONSTANTS Depth = 22 ND = 5 NQ = 8 NF = 3 Paths = {1, 2, 3, 4} MaxLd = 2 InOrder = TRUE BadRate = 0 Odd = 0
CONSTANT Menu <- MenuC17
