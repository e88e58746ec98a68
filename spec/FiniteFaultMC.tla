----------------------------- MODULE FiniteFaultMC ----------------------------
(* Every small fault and sub-fault size: tiles are laid one after another.           *)
EXTENDS FiniteFault
CONSTANTS MaxLen
VARIABLES f, dL, dW, k, area, mom
vars == <<f, dL, dW, k, area, mom>>
Base == [n0 |-> 1, e0 |-> -2, L |-> 1, st |-> Ang0, dip |-> Ang(0,1,1), top |-> 1, W |-> 1, kode |-> 100, v1 |-> 1, v2 |-> 1, inr |-> FALSE, rk |-> Ang0]
Init == /\ \E l \in 1..MaxLen, w \in 1..MaxLen, s \in {Ang(1,0,1), Ang(-3,4,5)}, d \in {Ang(0,1,1), Ang(4,3,5)} :
             f = [Base EXCEPT !.L = l, !.W = w, !.st = s, !.dip = d]
        /\ dL \in 1..(MaxLen + 1) /\ dW \in 1..(MaxLen + 1)
        /\ k = 0 /\ area = 0 /\ mom = [n |-> 0, e |-> 0, d |-> 0]
T == Tiles(f, dL, dW)
Lay == /\ k < Len(T) /\ k' = k + 1 /\ area' = area + T[k + 1].area
       /\ mom' = [n |-> mom.n + T[k+1].area * T[k+1].n, e |-> mom.e + T[k+1].area * T[k+1].e, d |-> mom.d + T[k+1].area * T[k+1].d]
       /\ UNCHANGED <<f, dL, dW>>
Next == Lay
Spec == Init /\ [][Next]_vars
(* the tiles cover the fault: areas add up, the centroid is the fault's centre               *)
Cover == k = Len(T) =>
  /\ area = f.L * f.W
  /\ mom.n = area * Centre(f, f.L, f.W).n /\ mom.e = area * Centre(f, f.L, f.W).e /\ mom.d = area * Centre(f, f.L, f.W).d
NoEmpty == \A t \in 1..Len(T) : T[t].area > 0 /\ T[t].area <= dL * dW
(* cutting the fault along strike at a tile boundary leaves the same set of tiles              *)
Split == (k = 0 /\ dL < f.L /\ f.st.h = 1) =>
  LET a == [f EXCEPT !.L = dL]
      b == [f EXCEPT !.L = f.L - dL, !.n0 = f.n0 + dL * f.st.c, !.e0 = f.e0 + dL * f.st.s]
  IN Range(T) = Range(Tiles(a, dL, dW)) \cup Range(Tiles(b, dL, dW))
Monotone == k <= Len(T)
Inv == Cover /\ NoEmpty /\ Split /\ Monotone
=============================================================================
