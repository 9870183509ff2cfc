SPECIFICATION Spec
CONSTANTS ND = 2 Labels = {1, 2, 3} Scores = {0, 1} Ths = {0, 1, 2}
INVARIANTS MechanismCounts MechanismMatrix HardmaxAccounts MatrixAgrees ExamplesAgree Ranges Monotone FiltersCompose OrderFree
