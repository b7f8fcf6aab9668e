SPECIFICATION Spec
CONSTANTS
  NTypes = 2
  MaxOps = 2
  MaxCalls = 3
  Names = {"A", "A2"}
  Paths = {"/$defs"}
  Inlines = {TRUE, FALSE}
  WithDir = FALSE
INVARIANTS RefsResolve RefsResolveFresh NamesInjective NoPlaceholderWhenIdle CleanWhenIdle PlaceholderIsRunning StackBounded InlineDecision
PROPERTIES NamesStable CloneKeepsNames
CHECK_DEADLOCK FALSE
