SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 3
  NFeatures = 1
  MaxX = 2
  Kind = "reg"
  Ys <- YReg
  Deltas <- SomeDelta
  PPs <- TwoPP
  Precs <- NoPrec
  Priors <- RegPriors
INVARIANTS TypeOK Partition NonEmpty PrefixClosed RoutingConsistent Bounded EqualTogether Additive PriorGrows PrunedFix Confluent UniformKeepsPrediction SameCandidates
