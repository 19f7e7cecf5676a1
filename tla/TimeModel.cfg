INIT Init
NEXT Next
INVARIANTS DayOk EpochOk Known Laws
