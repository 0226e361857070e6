CONSTANT N = 40
SPECIFICATION Spec
INVARIANTS OuOk GbmOk IbmOk CirOk Nonneg
