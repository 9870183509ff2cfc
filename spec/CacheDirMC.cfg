SPECIFICATION Spec
CONSTANTS Paths = {1, 2} MaxOps = 5
PROPERTIES ForeignKept RowsKept Local
