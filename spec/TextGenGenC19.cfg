SPECIFICATION Spec
CONSTANTS Depth = 50 BadRate = 50 ErrRate = 0 MaxR = 2 OddRate = 2
