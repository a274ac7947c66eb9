SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 4
  NFeatures = 1
  MaxX = 2
  Kind = "clf"
  Ys <- YClf3
  Deltas <- NoDelta
  PPs <- OnePP
  Precs <- NoPrec
  Priors <- Clf3Priors
INVARIANTS TypeOK Partition NonEmpty PrefixClosed RoutingConsistent Bounded EqualTogether Additive PriorGrows PrunedFix Confluent UniformKeepsPrediction SameCandidates
