CONSTANTS
  Places = 3
  Heights = {200, 400}
  MoveSpeeds = {9000}
  PrintSpeeds = {1800, 3600}
  Overrides = {0, 1800}
  Retractions = {0, 20000}
  Hops = {0, 300}
  MaxOps = 2
SPECIFICATION Spec
INVARIANTS NoLawBroken InStep Settled Printed Volume
PROPERTY Ends
CHECK_DEADLOCK FALSE
