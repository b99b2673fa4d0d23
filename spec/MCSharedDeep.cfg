CONSTANTS Threads = {1, 2, 3, 4}
          Cache = FALSE
          Msg <- MCMsg
SPECIFICATION Spec
INVARIANT Pure
CHECK_DEADLOCK FALSE
