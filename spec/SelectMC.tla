------------------------------- MODULE SelectMC -------------------------------
(* Every library over two values per axis (each directory stored or not, one of     *)
(* them possibly stored twice under another name) and every choice of selectors.     *)
EXTENDS Select
CONSTANTS WithTwin
VARIABLES stored, sel, leaf
vars == <<stored, sel, leaf>>
Bit(n, k) == (n \div (2 ^ k)) % 2
Combo(k) == <<1 + Bit(k, 0), 1 + Bit(k, 1), 1 + Bit(k, 2)>>
RECURSIVE Lib(_, _)
Lib(n, k) == IF k = 8 THEN << >> ELSE (IF Bit(n, k) = 1 THEN <<Combo(k)>> ELSE << >>) \o Lib(n, k + 1)
Sels == {<< >>, <<1>>, <<2>>, <<3>>}
Init == /\ \E n \in 0..255 : \E t \in (IF WithTwin THEN {FALSE, TRUE} ELSE {FALSE}) :
             stored = LET L == Lib(n, 0) IN IF t /\ L # << >> THEN Append(L, L[1]) ELSE L
        /\ sel \in [1..3 -> Sels]
        /\ leaf \in {0, 1, 2} /\ leaf <= Len(stored) /\ (leaf # 0 => stored # << >>)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Ans == IF leaf # 0 THEN PickLeaf(leaf, sel) ELSE Pick(stored, sel)
TypeOK == Ans \in 0..Len(stored)
(* what is used agrees with everything that was asked for *)
Sound == Ans # 0 => Hit(stored[Ans], sel)
(* and there is no other candidate *)
Unique == (Ans # 0 /\ leaf = 0) => \A k \in 1..Len(stored) : Hit(stored[k], sel) => k = Ans
(* a full specification of a combination stored once is always answered *)
Total == (leaf = 0 /\ Cardinality(Hits(stored, sel)) = 1 /\ \A a \in 1..3 : sel[a] # << >>) => Ans # 0
(* selectors that agree with the answer can be added without changing it *)
Refine == (Ans # 0 /\ leaf = 0) => Pick(stored, [a \in 1..3 |-> <<stored[Ans][a]>>]) = Ans
Out == Emit([stored |-> stored, sel |-> sel, leaf |-> leaf, ans |-> Ans])
Inv == TypeOK /\ Sound /\ Unique /\ Total /\ Refine
=============================================================================
