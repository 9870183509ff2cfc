SPECIFICATION Spec
CONSTANTS Paths = {1, 2} Depth = 14
