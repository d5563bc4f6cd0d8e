CONSTANTS N = 3
          Vals = {1, 2}
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK InsertEraseLaw
PROPERTIES RetValid OtherUntouched SizeLaw
CHECK_DEADLOCK FALSE
