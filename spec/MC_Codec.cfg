SPECIFICATION Spec
CONSTANTS Ticks = {4}
 Pages = {32, 33}
 Bytes = {0, 32}
 Addrs <- MCAddrs
 MaxOps = 3
INVARIANT Faithful
CHECK_DEADLOCK FALSE
