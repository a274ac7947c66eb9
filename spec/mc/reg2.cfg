SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 3
  NFeatures = 2
  MaxX = 1
  Kind = "reg"
  Ys <- YReg2
  Deltas <- NoDelta
  PPs <- OnePP
  Precs <- NoPrec
  Priors <- RegPriors
INVARIANTS TypeOK Partition NonEmpty PrefixClosed RoutingConsistent Bounded EqualTogether Additive PriorGrows PrunedFix Confluent UniformKeepsPrediction SameCandidates
