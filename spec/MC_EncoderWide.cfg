SPECIFICATION ESpec
CONSTANTS
  Extras = 2
  Cells = {1, 2, 3, 4}
  Vals = {0, 1, 2}
  Err <- MCErr
  MaxPasses = 2
INVARIANTS UrgencyIsNeglect PendingIsWrong PassBounded LeadExact
PROPERTIES NeverWorse Converges
CHECK_DEADLOCK FALSE
