INIT Init
NEXT Next
CONSTANTS
  Ids = {1, 2, 3}
  Titles <- SomeTitles
  MaxParts = 3
INVARIANTS AllParts Complement Nested CaseMonotone Converse ModesPartition
