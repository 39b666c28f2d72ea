SPECIFICATION Spec
CONSTANTS MaxOps = 5
INVARIANTS DiskAsAsked ReadsRight OneOpen PackLaw SelLaw
CHECK_DEADLOCK FALSE
