SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
          Inputs = {1, 2}
          Shared = FALSE
          Guarded = FALSE
          Calls = 2
INVARIANTS Linear Fresh
