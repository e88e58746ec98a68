SPECIFICATION Spec
CONSTANTS NF = 6 NT = 3 Private = FALSE
INVARIANTS ScheduleFree NoTearing
