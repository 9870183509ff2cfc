SPECIFICATION Spec
CONSTANTS NG = 2 NP = 3 Labels = {1, 2} Levels = 2 Multi = FALSE
INVARIANTS BoundsWork CurveWorks CountLaws MatchLaws MatrixLaws
