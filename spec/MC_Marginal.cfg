SPECIFICATION Spec
INVARIANTS Psd InitIsJoint NoNoise Decouples ObsIsField
PROPERTIES CoefficientsRest
