CONSTANTS Names = {1, 2, 3}
SPECIFICATION Spec
VIEW View
PROPERTIES LookupsPure SaysReplaced OthersKept TakesEffect UnregisteredThrows
CHECK_DEADLOCK FALSE
