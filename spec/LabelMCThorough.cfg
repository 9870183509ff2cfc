SPECIFICATION Spec
CONSTANTS Labels = {1, 2, 3, 4} MaxLen = 2 MaxCalls = 4 Forget = TRUE
INVARIANTS ReadBack NoTrace DatumsCounted
