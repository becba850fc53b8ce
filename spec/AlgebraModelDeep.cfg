SPECIFICATION ASpec
CONSTANTS K = 2 N = 2 Depth = 2 MaxLen = 4
INVARIANTS SameLanguages Comparisons Emptiness Laws AEmit
