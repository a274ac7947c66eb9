---------------------------- MODULE MCLifecycle ----------------------------
EXTENDS Lifecycle
\* parameter sets: 1 default prior, 2 prior for two classes, 3 prior for three classes, 4 nothing given
MCKOfPar == <<0, 2, 3, 0>>
\* data sets: 1 two classes, 2 three classes, 3 two classes (no split), 4 two classes (sparse),
\* 5 of the same shape and type as 1, 6 of the same shape and type as 1, other classes
MCKOfData == <<2, 3, 2, 2, 2, 3>>
=============================================================================
