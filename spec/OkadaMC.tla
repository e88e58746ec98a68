------------------------------- MODULE OkadaMC --------------------------------
EXTENDS Okada
CONSTANTS MaxStep, MaxF
VARIABLES F0, F, m, n
A0 == Ang(1, 0, 1)  A3 == Ang(3, 4, 5)  A9 == Ang(0, 1, 1)  A20 == Ang(-4, -3, 5)
Fl(p, L, W, st, dip, s) == [p |-> p, L |-> L, W |-> W, st |-> st, dip |-> dip, slip |-> s]
Starts == {
  << Fl(<<0, 0, 125>>, 2, 2, A0, Ang(3, 4, 5), <<2, 1, 0>>) >>,
  << Fl(<<250, -125, 250>>, 3, 1, A3, A9, <<1, -2, 0>>) >>,
  << Fl(<<-125, 0, 0>>, 1, 2, A9, Ang(4, 3, 5), <<0, 2, -1>>) >>,
  << Fl(<<125, 125, 125>>, 2, 1, A20, A9, <<1, 0, 2>>) >>,
  << Fl(<<0, 0, 125>>, 2, 1, A9, Ang(3, 4, 5), <<3, 0, 0>>), Fl(<<250, 250, 375>>, 1, 1, A3, Ang(4, 3, 5), <<0, 1, 1>>) >>,
  << Fl(<<0, 125, 500>>, 1, 1, A0, A9, <<0, 0, 2>>), Fl(<<0, 125, 250>>, 1, 2, A0, A9, <<-1, 1, 0>>) >> }
Init == F0 \in Starts /\ F = F0 /\ m = Still /\ n = 0
Room == Len(F) < MaxF
Describe == m' = m /\ \E k \in 1..Len(F) :
   \/ Room /\ \E l \in 1..(F[k].L - 1) : F' = Put(F, k, CutL(F[k], l))
   \/ Room /\ \E w \in 1..(F[k].W - 1) : F' = Put(F, k, CutW(F[k], w))
   \/ Room /\ F' = Put(F, k, Parts(F[k]))
   \/ Room /\ Row(F[k]) # 100 /\ F[k].slip[1] = 0 /\ F' = Put(F, k, << [F[k] EXCEPT !.slip = <<0, F[k].slip[2], 0>>], [F[k] EXCEPT !.slip = <<0, 0, F[k].slip[3]>>] >>)
   \/ F[k].dip.c = 0 /\ F' = Put(F, k, << Turn(F[k]) >>)
   \/ k < Len(F) /\ F' = Put(Put(F, k, << F[k + 1] >>), k + 1, << F[k] >>)
   \/ Room /\ F' = Append(F, [F[k] EXCEPT !.slip = <<0, 0, 0>>])
   \/ Len(F) + 1 < MaxF /\ F' = F \o << [F[k] EXCEPT !.slip = <<1, 1, 0>>, !.dip = A9], [F[k] EXCEPT !.slip = <<-1, -1, 0>>, !.dip = A9] >>
Each(Op(_)) == [k \in 1..Len(F) |-> Op(F[k])]
Unmoved == m.h = 1
Move == 
  \/ \E g \in {A9, Ang(-1, 0, 1), A3} : (g.h = 1 \/ Unmoved) /\ m.t = <<0, 0>> /\ m.a = <<1, 0, 0, 1>>
       /\ F' = Each(LAMBDA f : RotF(f, g)) /\ m' = [m EXCEPT !.a = << g.c, -g.s, g.s, g.c >>, !.h = g.h]
  \/ \E d \in {<<375, -250>>, <<-125, 0>>} : F' = Each(LAMBDA f : ShiftF(f, d[1], d[2])) /\ m' = [m EXCEPT !.t = <<m.t[1] + d[1], m.t[2] + d[2]>>]
  \/ F' = Each(Mir) /\ m' = [m EXCEPT !.a = << -m.a[1], -m.a[2], m.a[3], m.a[4] >>, !.t = << -m.t[1], m.t[2] >>]
  \/ m.k = 1 /\ \E k \in {2, -1} : F' = Each(LAMBDA f : [f EXCEPT !.slip = Times(k, f.slip)]) /\ m' = [m EXCEPT !.k = k]
Next == n < MaxStep /\ n' = n + 1 /\ F0' = F0 /\ (Describe \/ Move)
Spec == Init /\ [][Next]_<<F0, F, m, n>>
SameField == Same(F0, m, F)
Rows == \A k \in 1..Len(F) : Row(F[k]) # 0 /\ IsAngle(F[k].st) /\ F[k].L > 0 /\ F[k].W > 0 /\ F[k].p[3] >= 0
Frames == \A k \in 1..Len(F) : LET f == F[k] IN Dot(Along(f), Down(f)) = 0 /\ Dot(Along(f), Norm(f)) = 0 /\ Dot(Down(f), Norm(f)) = 0
            /\ Dot(Along(f), Along(f)) = DEN * DEN /\ Dot(Down(f), Down(f)) = DEN * DEN /\ Dot(Norm(f), Norm(f)) = DEN * DEN
EmitP == n > 0 => Emit([f0 |-> F0, f |-> F, m |-> m])
(* a defective description (the slip sign of a turned fault kept) is seen by Same         *)
BadTurn(f) == [Turn(f) EXCEPT !.slip = f.slip]
Sees == \A k \in 1..Len(F) : (F[k].dip.c = 0 /\ F[k].slip[2] # 0 /\ Len(F) = 1) => ~Same(F, Still, Put(F, k, << BadTurn(F[k]) >>))
=============================================================================
