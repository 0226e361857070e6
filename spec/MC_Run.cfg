CONSTANT Steps = 2
SPECIFICATION Spec
INVARIANTS FollowsPath Uncertainty MixMean Laws Growing
