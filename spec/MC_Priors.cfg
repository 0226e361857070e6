SPECIFICATION Spec
INVARIANTS Semigroup PsdQ IbmIsLti OuIsIbm Closed OneScale Padding
