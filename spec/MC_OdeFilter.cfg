SPECIFICATION Spec
INVARIANTS Psd OnTheField ExactOnPolynomials SameWithoutState ScaleFree Decouples Permutes MixInit CalScale
