SPECIFICATION Spec
CONSTANTS NF = 6 NT = 3 Private = TRUE
INVARIANTS ScheduleFree NoTearing
