SPECIFICATION TraceSpec
CONSTANTS
  HistoryOf <- TrHistory
  Refused <- TrRefused
PROPERTIES NoAliasing CopyEqual
CHECK_DEADLOCK FALSE
