CONSTANTS Threads = {1, 2}
          Cache = TRUE
          Msg <- MCMsg
SPECIFICATION Spec
INVARIANT Pure
CHECK_DEADLOCK FALSE
