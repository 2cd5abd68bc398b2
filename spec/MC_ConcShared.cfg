SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
          Inputs = {1, 2}
          Shared = TRUE
          Guarded = TRUE
          Calls = 2
INVARIANTS Linear Fresh
