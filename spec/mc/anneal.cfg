SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  NVal = 4
  MaxScan = 3
  MaxKeep = 3
  Patience = 3
INVARIANTS KeepsBest NeverLost Counted Bounded Rests
PROPERTIES Stops
