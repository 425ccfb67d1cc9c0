SPECIFICATION Spec
CONSTANTS
 MaxClasses = 3
 MaxTickets = 5
INVARIANTS TopKLaw SumsToOne CountLaw AllDrawn Positions WithRepl Conserved Pascal Done
CHECK_DEADLOCK FALSE
