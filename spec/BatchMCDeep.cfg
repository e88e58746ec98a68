SPECIFICATION Spec
CONSTANTS NF = 7 NT = 4 Private = TRUE
INVARIANTS ScheduleFree NoTearing
