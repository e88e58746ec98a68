------------------------------- MODULE Source --------------------------------
(* Seismic sources as moment tensors / force vectors in (north, east, down),   *)
(* rotated to the (radial, transverse, down) frame of a receiver azimuth, and   *)
(* the Green's-function weights that follow from them (Aki & Richards; Yao &    *)
(* Harkrider).  Everything is integer: each operator states its denominator.    *)
EXTENDS VP

(* ---- moment tensors: <<M11,M12,M13,M22,M23,M33>> --------------------------- *)
Sym(a, b) == <<2*a[1]*b[1], a[1]*b[2] + a[2]*b[1], a[1]*b[3] + a[3]*b[1],
               2*a[2]*b[2], a[2]*b[3] + a[3]*b[2], 2*a[3]*b[3]>>

(* fault normal, denominator dip.h*strike.h                                     *)
Normal(strike, dip) ==
  << -dip.s * strike.s, dip.s * strike.c, -dip.c * strike.h >>
(* slip vector, denominator rake.h*dip.h*strike.h                               *)
Slip(strike, dip, rake) ==
  << rake.c * strike.c * dip.h + dip.c * rake.s * strike.s,
     rake.c * strike.s * dip.h - dip.c * rake.s * strike.c,
     -rake.s * dip.s * strike.h >>

(* double couple: M = d n' + n d'; denominator DCden                            *)
DCTensor(strike, dip, rake) == Sym(Normal(strike, dip), Slip(strike, dip, rake))
DCden(strike, dip, rake) == dip.h * dip.h * strike.h * strike.h * rake.h

(* tensile opening: M = (lambda/mu) I + 2 n n', with (vp/vs)^2 = vr[1]/vr[2]     *)
TSTensor(strike, dip, vr) ==
  LET n == Normal(strike, dip)
      s == Sym(n, n)
      d == dip.h * dip.h * strike.h * strike.h
      iso == (vr[1] - 2 * vr[2]) * d
  IN << vr[2]*s[1] + iso, vr[2]*s[2], vr[2]*s[3], vr[2]*s[4] + iso, vr[2]*s[5], vr[2]*s[6] + iso >>
TSden(strike, dip, vr) == dip.h * dip.h * strike.h * strike.h * vr[2]

(* rotation of a tensor about the vertical by azimuth a: components             *)
(* rr, rt, rz, tt, tz, zz; denominator multiplied by a.h^2                       *)
RotTensor(M, a) ==
  LET c == a.c  s == a.s  h == a.h IN
  [ rr |-> M[1]*c*c + 2*M[2]*s*c + M[4]*s*s,
    tt |-> M[1]*s*s - 2*M[2]*s*c + M[4]*c*c,
    rt |-> (M[4] - M[1])*s*c + M[2]*(c*c - s*s),
    rz |-> (M[3]*c + M[5]*s) * h,
    tz |-> (-M[3]*s + M[5]*c) * h,
    zz |-> M[6]*h*h ]

(* Weights of the Green's functions EX, VF, HF, DD, DS, SS on (Z and R) and on   *)
(* T, for a rotated tensor.  Denominator: 6 times that of the tensor.            *)
TensorWeights(t) ==
  [ zr |-> << 2*(t.rr + t.tt + t.zz), 0, 0,
              2*t.zz - t.rr - t.tt, -6*t.rz, 3*(t.rr - t.tt) >>,
    t  |-> << 0, 0, 0, 0, -6*t.tz, 6*t.rt >> ]

(* d/d(azimuth) of the above                                                     *)
TensorWeightsTheta(t) ==
  [ zr |-> << 0, 0, 0, 0, -6*t.tz, 12*t.rt >>,
    t  |-> << 0, 0, 0, 0, 6*t.rz, -6*(t.rr - t.tt) >> ]

(* point force <<fn, fe, fz>> : denominator a.h                                  *)
ForceWeights(f, a) ==
  [ zr |-> << 0, f[3]*a.h, f[1]*a.c + f[2]*a.s, 0, 0, 0 >>,
    t  |-> << 0, 0, -f[1]*a.s + f[2]*a.c, 0, 0, 0 >> ]
ForceWeightsTheta(f, a) ==
  [ zr |-> << 0, 0, -f[1]*a.s + f[2]*a.c, 0, 0, 0 >>,
    t  |-> << 0, 0, -(f[1]*a.c + f[2]*a.s), 0, 0, 0 >> ]

ExplosionWeights == [ zr |-> << 1, 0, 0, 0, 0, 0 >>, t |-> << 0, 0, 0, 0, 0, 0 >> ]
ZeroWeights == [ zr |-> << 0, 0, 0, 0, 0, 0 >>, t |-> << 0, 0, 0, 0, 0, 0 >> ]

(* A source: [type, ...].  Weights(src, az) gives [w, wt, den].                   *)
Weights(src, az) ==
  CASE src.type = "EX" -> [ w |-> ExplosionWeights, wt |-> ZeroWeights, den |-> 1 ]
    [] src.type = "SF" -> [ w |-> ForceWeights(src.f, az), wt |-> ForceWeightsTheta(src.f, az), den |-> az.h ]
    [] src.type = "DC" ->
         LET t == RotTensor(DCTensor(src.strike, src.dip, src.rake), az)
         IN [ w |-> TensorWeights(t), wt |-> TensorWeightsTheta(t),
              den |-> 6 * DCden(src.strike, src.dip, src.rake) * az.h * az.h ]
    [] src.type = "TS" ->
         LET t == RotTensor(TSTensor(src.strike, src.dip, src.vr), az)
         IN [ w |-> TensorWeights(t), wt |-> TensorWeightsTheta(t),
              den |-> 6 * TSden(src.strike, src.dip, src.vr) * az.h * az.h ]
    [] src.type = "MT" ->
         LET t == RotTensor(src.m, az)
         IN [ w |-> TensorWeights(t), wt |-> TensorWeightsTheta(t), den |-> 6 * az.h * az.h ]

(* which of the six Green's-function families a source needs                      *)
Needs(src) ==
  CASE src.type = "EX" -> {1} [] src.type = "SF" -> {2, 3}
    [] src.type = "DC" -> {4, 5, 6} [] src.type = "TS" -> {1, 4, 5, 6} [] src.type = "MT" -> {1, 4, 5, 6}

(* Combination: g is a sequence of 6 families, each <<Z, R, T>> of integers        *)
Combine(w, g) ==
  << SumSeq([k \in 1..6 |-> w.zr[k] * g[k][1]]),
     SumSeq([k \in 1..6 |-> w.zr[k] * g[k][2]]),
     SumSeq([k \in 1..6 |-> w.t[k] * g[k][3]]) >>

(* vector (z,r,t) -> (z,n,e): denominator multiplied by a.h                        *)
RotVec(u, a) == << u[1]*a.h, u[2]*a.c - u[3]*a.s, u[2]*a.s + u[3]*a.c >>

(* physical gradient G[i][j] = (e_i . grad u)_j over z,r,t  -> over z,n,e          *)
(* denominator multiplied by a.h^2                                                 *)
RotGrad(G, a) ==
  LET c == a.c  s == a.s  h == a.h
      \* rotate the component index
      RowN(r) == << r[1]*h, r[2]*c - r[3]*s, r[2]*s + r[3]*c >>
      gz == RowN(G[1])  gr == RowN(G[2])  gt == RowN(G[3])
  IN << [j \in 1..3 |-> gz[j]*h],
        [j \in 1..3 |-> gr[j]*c - gt[j]*s],
        [j \in 1..3 |-> gr[j]*s + gt[j]*c] >>
=============================================================================
