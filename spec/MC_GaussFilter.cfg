SPECIFICATION Spec
INVARIANTS ExactConditioning Psd NeverGrows Interpolates
