SPECIFICATION Spec
CONSTANTS Depth = 18 ND = 6 NQ = 8 NF = 3 Paths = {1, 2, 3, 4} MaxLd = 2 InOrder = TRUE BadRate = 0 Odd = 0
CONSTANT Menu <- MenuC15
