SPECIFICATION SpecH
INVARIANT StackLaws TupleLaws SortLaws
CHECK_DEADLOCK FALSE
