SPECIFICATION Spec
CONSTANTS Depth = 50
