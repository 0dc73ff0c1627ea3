SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxEdits = 2
          MaxRooms = 4
INVARIANTS RoomLaw LossLaw IgnoredLaw FloorLaw
CONSTRAINT Keep
POSTCONDITION HandOver
