-------------------------------- MODULE Ranges --------------------------------
(* What start/end/step, a list or a file of numbers denotes, for the classes of     *)
(* axes the commands have.  Values are integers in a common unit.                    *)
(*   dist  non-negative, strictly ascending: range, list or file                     *)
(*   axis  coordinate range, any sign            time  non-negative range            *)
(*   freq  positive frequencies, a zero start is skipped; one value allowed          *)
(*   per   the same given as periods, results in ascending frequency                 *)
(*   cvel  positive range, start < end                                               *)
EXTENDS VP
Refuse == << >>            \* nothing: the request is refused
Prog(a, b, d) == [k \in 1..((b - a) \div d + 1) |-> a + (k - 1) * d]
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
NonNeg(s) == \A k \in 1..Len(s) : s[k] >= 0
RangeOk(a, b, d) == d > 0 /\ a <= b
FreqProg(a, b, d) == LET s == IF a = 0 THEN d ELSE a IN IF s > b THEN Refuse ELSE Prog(s, b, d)
Denotes(class, kind, v) ==
  IF kind = "range" THEN
    LET a == v[1]  b == v[2]  d == v[3] IN
    CASE class = "dist" -> IF RangeOk(a, b, d) /\ a >= 0 THEN Prog(a, b, d) ELSE Refuse
      [] class = "axis" -> IF RangeOk(a, b, d) THEN Prog(a, b, d) ELSE Refuse
      [] class = "time" -> IF RangeOk(a, b, d) /\ a >= 0 THEN Prog(a, b, d) ELSE Refuse
      [] class = "freq" -> IF RangeOk(a, b, d) /\ a >= 0 /\ b > 0 THEN FreqProg(a, b, d) ELSE Refuse
      [] class = "freq2" -> IF RangeOk(a, b, d) /\ a >= 0 /\ b > 0 /\ Len(FreqProg(a, b, d)) >= 2 THEN FreqProg(a, b, d) ELSE Refuse
      [] class = "per" -> IF RangeOk(a, b, d) /\ a >= 0 /\ b > 0 THEN (IF FreqProg(a, b, d) = Refuse THEN Refuse ELSE Rev(FreqProg(a, b, d))) ELSE Refuse
      [] class = "cvel" -> IF RangeOk(a, b, d) /\ a > 0 /\ a < b THEN Prog(a, b, d) ELSE Refuse
  ELSE IF class \in {"freq", "per"} THEN (IF Len(v) = 1 /\ v[1] > 0 THEN v ELSE Refuse)
  ELSE (* list or file *)
    IF v # << >> /\ NonNeg(v) /\ Ascending(v) THEN v ELSE Refuse
=============================================================================
