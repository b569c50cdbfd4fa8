SPECIFICATION Spec
CONSTANTS
  Tokens <- Some
  MaxTokens = 3
INVARIANTS IsEffective IsRefused Defaults LastWins
