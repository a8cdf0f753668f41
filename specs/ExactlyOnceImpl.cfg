SPECIFICATION Spec
CONSTANTS Consumers = {c1, c2}
          Messages = {m1, m2, m3}
          Defect = "none"
PROPERTY Refines
CHECK_DEADLOCK FALSE
