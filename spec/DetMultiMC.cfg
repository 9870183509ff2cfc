SPECIFICATION Spec
CONSTANTS NG = 2 NP = 2 Labels = {1, 2} Levels = 2 Multi = TRUE
INVARIANTS BoundsWork CurveWorks CountLaws MatchLaws MatrixLaws
