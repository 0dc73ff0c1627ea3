SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxEdits = 1
          MaxRooms = 3
INVARIANTS RoomLaw LossLaw IgnoredLaw FloorLaw
CONSTRAINT Keep
POSTCONDITION HandOver
