SPECIFICATION Spec
CONSTANTS Srcs = {1, 2} Rcvs = {1, 2} Dists = {1, 2, 3} Types = {"e", "v", "h", "s"} Liquid = {1} Threads = {1, 3} Restore = FALSE MaxRuns = 0
INVARIANTS Complete OnlyNamed
