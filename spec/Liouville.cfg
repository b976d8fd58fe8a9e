SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS TileR TileX Lookup
PROPERTY Terminates
CHECK_DEADLOCK FALSE
