SPECIFICATION Spec
CONSTANTS Depth = 60 BadRate = 2 ErrRate = 0 MaxR = 1 OddRate = 5
