SPECIFICATION DSpec
CONSTANTS Deep = 5  Runs <- MCRuns  Costs <- MCCosts
INVARIANTS NoCheaper Attained Metric
CHECK_DEADLOCK FALSE
