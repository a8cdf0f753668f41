SPECIFICATION FairSpec
CONSTANTS Consumers = {c1, c2}
          Messages = {m1, m2}
INVARIANT Inv
PROPERTY NoneLeftBehind
CHECK_DEADLOCK FALSE
