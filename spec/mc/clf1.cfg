SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 4
  NFeatures = 1
  MaxX = 3
  Kind = "clf"
  Ys <- YClf
  Deltas <- SomeDelta
  PPs <- TwoPP
  Precs <- SomePrec
  Priors <- ClfPriors
INVARIANTS TypeOK Partition NonEmpty PrefixClosed RoutingConsistent Bounded EqualTogether Additive PriorGrows PrunedFix Confluent UniformKeepsPrediction SameCandidates
