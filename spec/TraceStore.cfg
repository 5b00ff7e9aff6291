SPECIFICATION StoreSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
