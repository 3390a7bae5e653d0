SPECIFICATION SpecB
INVARIANT Builds Collected Shares
PROPERTY Frame
CHECK_DEADLOCK FALSE
