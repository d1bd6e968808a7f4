CONSTANTS
  MaxWords = 3
  MaxSteps = 2
  WordsOf <- MCWords
  ScriptOf <- MCScript
SPECIFICATION Spec
INVARIANT Inv
