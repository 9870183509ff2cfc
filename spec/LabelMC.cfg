SPECIFICATION Spec
CONSTANTS Labels = {1, 2, 3} MaxLen = 2 MaxCalls = 3 Forget = TRUE
INVARIANTS ReadBack NoTrace DatumsCounted
