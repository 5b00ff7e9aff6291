SPECIFICATION Spec
CONSTANTS
  Base <- B
  Admin <- AdminDN
  AnonOK = TRUE
  Refusals <- Codes
  Alphabet <- FilterSmall
  Users <- OneAdmin
VIEW View
INVARIANTS WellFormed NameValues ValueSets Export
PROPERTIES OnlyAdmin OwnIdentity FailedBindIsAnonymous Authenticated ErrorsChangeNothing OneEntry LeafOnly ParentFirst RenameKeeps
CHECK_DEADLOCK FALSE
