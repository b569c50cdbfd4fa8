SPECIFICATION ESpec
CONSTANTS
  Extras = 1
  Cells = {1, 2, 3}
  Vals = {0, 1, 2, 4}
  Err <- MCErr
  MaxPasses = 3
INVARIANTS UrgencyIsNeglect PendingIsWrong PassBounded LeadExact
PROPERTIES NeverWorse Converges
CHECK_DEADLOCK FALSE
