-------------------------------- MODULE Quad --------------------------------
(* The plan of a wavenumber integration, over integer wavenumbers 0..K.          *)
(* "D": every multiple of dk up to and just beyond kcut.                        *)
(* A sample k of this part stands for [k - dk/2, k + dk/2].                          *)
(* "F": the same up to kcut, then steps of fdk up to and just beyond K.         *)
(* "A": the same up to kcut, then the interval that is left is bisected; a      *)
(*      piece is accepted, or put back as two halves, the left one on top.      *)
EXTENDS VP
CONSTANTS K, Dk, Fdk, Cut, MinW, LeftFirst, Handover
VARIABLES mode, phase, pos, n, stack, samp, pieces, from

vars == <<mode, phase, pos, n, stack, samp, pieces, from>>
KCut == IF mode = "D" THEN K ELSE Min2(Cut, K)
(* where the second part starts: nothing of the first is repeated or left out          *)
Start == IF Handover /\ pos > 0 THEN pos + Dk \div 2 ELSE pos + (IF mode = "F" THEN Fdk ELSE Dk)
NDwm(c, d) == IF c = 0 THEN 0 ELSE c \div d + 1

Init == /\ mode \in {"D", "F", "A"} /\ phase = "dwm" /\ pos = 0 /\ n = 0
        /\ stack = <<>> /\ samp = <<>> /\ pieces = <<>> /\ from = 0

Dwm == /\ phase = "dwm"
       /\ IF n < NDwm(KCut, Dk)
          THEN /\ pos' = pos + Dk /\ n' = n + 1 /\ samp' = Append(samp, pos + Dk)
               /\ UNCHANGED <<phase, stack, from>>
          ELSE /\ n' = 0 /\ UNCHANGED pos
               /\ IF mode = "D" \/ pos + Dk >= K
                  THEN phase' = "done" /\ UNCHANGED <<stack, samp, from>>
                  ELSE IF mode = "F" THEN phase' = "fim" /\ from' = Start /\ UNCHANGED <<stack, samp>>
                  ELSE /\ phase' = "sa" /\ stack' = <<[a |-> Start, b |-> K]>>
                       /\ samp' = Append(samp, Start) /\ from' = Start
       /\ UNCHANGED <<mode, pieces>>

(* pos is the last wavenumber of the first part while this runs; n counts steps     *)
Fim == /\ phase = "fim"
       /\ IF n < (K - from + Fdk) \div Fdk + 1
          THEN n' = n + 1 /\ samp' = Append(samp, from + n * Fdk) /\ UNCHANGED phase
          ELSE phase' = "done" /\ UNCHANGED <<n, samp>>
       /\ UNCHANGED <<mode, pos, stack, pieces, from>>

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Mid(v) == (v.a + v.b) \div 2
Sa == /\ phase = "sa"
      /\ IF stack = <<>> THEN phase' = "done" /\ UNCHANGED <<stack, samp, pieces>>
         ELSE \/ /\ samp' = samp \o [j \in 1..4 |-> Top.a + (j * (Top.b - Top.a)) \div 4]
                 /\ pieces' = Append(pieces, Top) /\ stack' = Rest /\ UNCHANGED phase
              \/ /\ Top.b - Top.a > MinW
                 /\ LET l == [a |-> Top.a, b |-> Mid(Top)]  r == [a |-> Mid(Top), b |-> Top.b]
                    IN stack' = Rest \o (IF LeftFirst THEN <<r, l>> ELSE <<l, r>>)
                 /\ UNCHANGED <<phase, samp, pieces>>
      /\ UNCHANGED <<mode, pos, n, from>>
Done == phase = "done" /\ UNCHANGED vars
Next == Dwm \/ Fim \/ Sa \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Dwm \/ Fim \/ Sa)

Increasing(s) == \A j \in 1..Len(s) - 1 : s[j] < s[j + 1]
InOrder == Increasing(samp)
(* once done: nothing of (0, K) is left out, nothing is integrated twice              *)
Gap == IF Len(samp) = 0 THEN K ELSE K - samp[Len(samp)]
Complete == phase = "done" =>
   /\ samp # <<>>
   /\ (mode = "D" => samp = [j \in 1..NDwm(K, Dk) |-> j * Dk] /\ Gap < 0 /\ Gap >= -Dk)
   /\ (mode = "F" => Gap < Dk /\ \A j \in 1..Len(samp) - 1 : samp[j + 1] - samp[j] \in {Dk, Fdk, Dk \div 2})
   /\ (mode = "A" => \/ pieces = <<>> /\ Gap < Dk + 1
                     \/ /\ pieces[1].a = from /\ pieces[Len(pieces)].b = K
                        /\ \A j \in 1..Len(pieces) - 1 : pieces[j].b = pieces[j + 1].a)
(* what is still to be done is exactly what is not done                               *)
Partition == phase = "sa" =>
   LET all == {pieces[j] : j \in 1..Len(pieces)} \cup {stack[j] : j \in 1..Len(stack)}
   IN \A k \in from .. K - 1 : Cardinality({v \in all : v.a <= k /\ k < v.b}) = 1
(* every unit of (dk/2, K) below the second part belongs to one sample of the first   *)
First == SelectSeq(samp, LAMBDA k : k <= pos /\ k % Dk = 0)
NoGap == from > 0 /\ pos > 0 =>
   \A k \in Dk \div 2 .. K - 1 :
      (IF k >= from THEN 1 ELSE 0) + Cardinality({j \in 1..Len(First) : First[j] - Dk \div 2 <= k /\ k < First[j] + Dk \div 2}) = 1
Finishes == <>(phase = "done")
=============================================================================
