SPECIFICATION GSpec
CONSTANTS
  Tokens <- None
  MaxTokens = 0
CHECK_DEADLOCK FALSE
