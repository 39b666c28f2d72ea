SPECIFICATION Spec
CONSTANTS MaxOps = 4
INVARIANTS DiskAsAsked ReadsRight OneOpen PackLaw SelLaw
CHECK_DEADLOCK FALSE
