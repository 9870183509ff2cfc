SPECIFICATION Spec
CONSTANTS Depth = 60 BadRate = 30 ErrRate = 3 MaxR = 4 OddRate = 8
