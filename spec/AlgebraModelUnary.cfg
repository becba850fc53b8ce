SPECIFICATION ASpec
CONSTANTS K = 1 N = 2 Depth = 2 MaxLen = 7
INVARIANTS SameLanguages Comparisons Emptiness Laws AEmit
