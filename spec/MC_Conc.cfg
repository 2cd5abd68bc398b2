SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
          Inputs = {1, 2}
          Shared = FALSE
          Guarded = TRUE
          Calls = 3
INVARIANTS Linear Fresh
