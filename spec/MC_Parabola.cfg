SPECIFICATION Spec
INVARIANTS Preserves TwoStage
