SPECIFICATION Spec
CONSTANTS Depth = 16 ND = 5 NQ = 8 NF = 3 Paths = {1, 2, 3, 4} MaxLd = 4 InOrder = TRUE BadRate = 4 Odd = 0
CONSTANT Menu <- MenuC21
