-------------------------------- MODULE SynMC --------------------------------
(* Model checking of the synthesis pipeline over a lattice of configurations and *)
(* emission of every finished run as a vector to replay in the real program.      *)
EXTENDS Syn, IOUtils

CONSTANTS Deep
VARIABLES phase, cfg, u, D

vars == <<phase, cfg, u, D>>

A345 == { Ang(4,3,5), Ang(-3,4,5), Ang(-4,-3,5), Ang(3,-4,5) }
Right == { Ang(1,0,1), Ang(0,1,1), Ang(-1,0,1), Ang(0,-1,1) }
A13 == { Ang(12,5,13), Ang(-12,5,13), Ang(-5,-12,13), Ang(12,-5,13) }
Azs == IF Deep THEN A345 \cup Right \cup A13 ELSE A345 \cup Right
Strikes == IF Deep THEN A345 \cup Right ELSE {Ang(1,0,1), Ang(-4,3,5), Ang(3,-4,5)}
Dips == {Ang(1,0,1), Ang(0,1,1), Ang(3,4,5), Ang(4,3,5)}
Rakes == IF Deep THEN A345 \cup Right ELSE {Ang(1,0,1), Ang(0,-1,1), Ang(-3,4,5), Ang(-4,-3,5)}

E6 == << <<1,0,0,0,0,0>>, <<0,1,0,0,0,0>>, <<0,0,1,0,0,0>>, <<0,0,0,1,0,0>>, <<0,0,0,0,1,0>>, <<0,0,0,0,0,1>>,
         <<1,0,0,1,0,1>>, <<3,-1,2,-2,5,4>> >>

Sources ==
  { [type |-> "EX"] }
  \cup { [type |-> "SF", f |-> f] : f \in {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<2,-3,-1>>} }
  \cup { [type |-> "MT", m |-> E6[i]] : i \in 1..8 }
  \cup { [type |-> "TS", strike |-> a, dip |-> b, vr |-> v] : a \in Strikes, b \in Dips, v \in {<<4,1>>, <<3,1>>} }
  \cup { [type |-> "DC", strike |-> a, dip |-> b, rake |-> r] : a \in Strikes, b \in Dips, r \in Rakes }

(* one Green's-function set, all entries different                                *)
G0(n) == [k \in 1..6 |-> << 1 + ((n + 3*k) % 7), -2 + ((2*n + 5*k) % 9), 3 - ((n + 2*k) % 8) >>]
gD == G0(0)
gZ == G0(11)
gR == G0(4)

Init == /\ phase = "load" /\ u = << >> /\ D = << >>
        /\ cfg \in [src : Sources, az : Azs, dist : {0, 2}, k : {1}, zne : BOOLEAN, upar : BOOLEAN]
        /\ (cfg.az.h = 13 => (cfg.src.type \in {"EX","SF","MT"} \/ cfg.src.strike.h = 1))

Combine1 == /\ phase = "load" /\ phase' = "combined"
            /\ u' = DispZRT(cfg, gD) /\ UNCHANGED <<cfg, D>>
Derive == /\ phase = "combined" /\ phase' = "derived"
          /\ D' = IF cfg.upar THEN DerivZRT(cfg, gD, gZ, gR) ELSE << >>
          /\ UNCHANGED <<cfg, u>>
Rotate == /\ phase = "derived" /\ phase' = "done"
          /\ IF cfg.zne
             THEN /\ u' = RotVec(u, EffAz(cfg))
                  /\ D' = IF cfg.upar THEN RotGrad(PhysGrad(cfg, u, D), EffAz(cfg)) ELSE D
             ELSE UNCHANGED <<u, D>>
          /\ UNCHANGED cfg
Next == Combine1 \/ Derive \/ Rotate
Spec == Init /\ [][Next]_vars

(* ---- properties of the specification ------------------------------------------ *)
(* the pipeline computes the closed form                                              *)
Closed == phase = "done" =>
  LET e == SynExpected(cfg, gD, gZ, gR) IN u = e.u /\ D = e.d
(* the frame change is an isometry and keeps the vertical component                   *)
Isometry == (phase = "done" /\ cfg.zne) =>
  LET v == DispZRT(cfg, gD)  h == EffAz(cfg).h IN
  /\ u[1] = v[1]*h
  /\ ((cfg.src.type \in {"EX","SF"} \/ (cfg.src.type = "MT" /\ h <= 5)) => u[2]*u[2] + u[3]*u[3] = (v[2]*v[2] + v[3]*v[3])*h*h)
(* divergence is frame independent                                                    *)
Divergence == (phase = "done" /\ cfg.zne /\ cfg.upar) =>
  LET G == PhysGrad(cfg, DispZRT(cfg, gD), DerivZRT(cfg, gD, gZ, gR))  h == EffAz(cfg).h IN
  D[1][1] + D[2][2] + D[3][3] = (G[1][1] + G[2][2] + G[3][3])*h*h
(* a source is seen only through the angle between strike and azimuth                 *)
JointRotation == (phase = "load" /\ cfg.src.type \in {"DC","TS"} /\ cfg.dist # 0) =>
  LET b == Ang(0,1,1)
      s2 == [cfg.src EXCEPT !.strike = AddA(cfg.src.strike, b)]
      W1 == Weights(cfg.src, cfg.az)  W2 == Weights(s2, AddA(cfg.az, b))
  IN W1 = W2
(* a double couple and a tensile source are their moment tensors                      *)
AsTensor == (phase = "load" /\ cfg.src.type = "DC") =>
  LET m == DCTensor(cfg.src.strike, cfg.src.dip, cfg.src.rake) IN
  /\ m[1] + m[4] + m[6] = 0                      \* no volume change
  /\ Weights([type |-> "MT", m |-> m], cfg.az).w = Weights(cfg.src, cfg.az).w
(* quarter turn = derivative for order-one terms, half turn for order two             *)
ThetaDerivative == (phase = "load" /\ cfg.src.type \in {"DC","TS","MT"}) =>
  LET q == Ang(0,1,1)
      W0 == Weights(cfg.src, cfg.az)  Wq == Weights(cfg.src, AddA(cfg.az, q)) IN
  /\ W0.wt.zr[5] = Wq.w.zr[5]
  /\ W0.wt.t[5] = Wq.w.t[5]
  /\ Wq.w.zr[6] = -W0.w.zr[6] /\ Wq.w.t[6] = -W0.w.t[6]

EmitDone == phase = "done" =>
  Emit([c |-> cfg, g |-> gD, gz |-> gZ, gr |-> gR, u |-> u, d |-> D, dens |-> SynDens(cfg)])
Inv == Closed /\ Isometry /\ Divergence /\ JointRotation /\ AsTensor /\ ThetaDerivative
=============================================================================
