SPECIFICATION Spec
CONSTANTS MaxLen = 24
          MaxWrite = 10
INVARIANTS Represents SumRight SumInjective
CHECK_DEADLOCK FALSE
