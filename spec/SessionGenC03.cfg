SPECIFICATION Spec
CONSTANTS Depth = 36 ND = 4 NQ = 8 NF = 3 Paths = {1, 2, 3, 4} MaxLd = 4 InOrder = TRUE BadRate = 2 Odd = 3
CONSTANT Menu <- MenuC03
