SPECIFICATION ASpec
CONSTANTS K = 2 N = 2 Depth = 1 MaxLen = 5
INVARIANTS SameLanguages Comparisons Emptiness Laws AEmit
