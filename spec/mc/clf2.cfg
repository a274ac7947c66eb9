SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 3
  NFeatures = 2
  MaxX = 1
  Kind = "clf"
  Ys <- YClf
  Deltas <- SomeDelta
  PPs <- OnePP
  Precs <- NoPrec
  Priors <- ClfPriors
INVARIANTS TypeOK Partition NonEmpty PrefixClosed RoutingConsistent Bounded EqualTogether Additive PriorGrows PrunedFix Confluent UniformKeepsPrediction SameCandidates
