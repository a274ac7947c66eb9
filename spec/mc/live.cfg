SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 3
  NFeatures = 1
  MaxX = 2
  Kind = "clf"
  Ys <- YClf
  Deltas <- SomeDelta
  PPs <- OnePP
  Precs <- NoPrec
  Priors <- ClfPriors
PROPERTIES Terminates
