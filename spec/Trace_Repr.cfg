CONSTANTS
  TInit <- SInit
  TFails <- SFails
  TAfter <- SAfter
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
