SPECIFICATION DSpec
CONSTANTS Deep = 4  Runs <- MCRuns  Costs <- MCCosts
INVARIANTS NoCheaper Attained Metric
CHECK_DEADLOCK FALSE
