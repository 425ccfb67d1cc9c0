SPECIFICATION Spec
CONSTANTS
 MaxClasses = 4
 MaxTickets = 8
INVARIANTS TopKLaw SumsToOne CountLaw AllDrawn Positions WithRepl Conserved Pascal Done
CHECK_DEADLOCK FALSE
