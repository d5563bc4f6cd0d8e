CONSTANTS BIG = 2000000001 Slots = {1, 2, 3} MaxStore = 2 MaxPath = 2 Fs = {1, 2, 3, 6, 7, 13, 17}
SPECIFICATION Spec
VIEW V
INVARIANTS ModulesAgree NothingBad Roundtrip Usable
PROPERTIES FailurePure LoadedStays SlotsStay StoreOwner
CHECK_DEADLOCK FALSE
