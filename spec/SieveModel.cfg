SPECIFICATION Spec
INVARIANTS Primes Handed Meaning
CONSTANTS
  Top = 300
  Share = FALSE
