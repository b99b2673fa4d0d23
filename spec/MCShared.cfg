CONSTANTS Threads = {1, 2}
          Cache = FALSE
          Msg <- MCMsg
SPECIFICATION Spec
INVARIANT Pure
CHECK_DEADLOCK FALSE
