SPECIFICATION Spec

INVARIANTS SamePath InCell Follows OnePiece CellByCell
PROPERTY Refines
