SPECIFICATION Spec
CONSTANTS ND = 5 NF = 3 MaxPer = 2
INVARIANTS MechanismCorrect Tiling PageSize
