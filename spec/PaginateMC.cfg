SPECIFICATION Spec
CONSTANTS ND = 4 NF = 3 MaxPer = 2
INVARIANTS MechanismCorrect Tiling PageSize
