--------------------------------- MODULE Syn ---------------------------------
(* Synthesis of one sample of a seismogram (property C05).                      *)
(* A run is Load -> Combine -> Derive -> Rotate -> Write; the state carries the  *)
(* configuration and the exact values so far.  SynExpected is the end result.    *)
EXTENDS Source

(* c: [src, az, dist, k, zne, upar]; g, gz, gr: Green's functions of one sample  *)
(* at the origin the azimuth is taken as north; keepaz marks a library node at    *)
(* zero distance used for a receiver that is itself off the origin                *)
EffAz(c) == IF c.dist = 0 /\ "keepaz" \notin DOMAIN c THEN Ang0 ELSE c.az
EffDist(c) == IF c.dist = 0 THEN 1 ELSE c.dist

SynDens(c) ==
  LET W == Weights(c.src, EffAz(c)) IN
  [ u |-> W.den * (IF c.zne THEN EffAz(c).h ELSE 1),
    zr |-> W.den * EffDist(c) * (IF c.zne THEN EffAz(c).h * EffAz(c).h ELSE 1) ]

Scale3(k, v) == << k*v[1], k*v[2], k*v[3] >>

DispZRT(c, g) == Scale3(c.k, Combine(Weights(c.src, EffAz(c)).w, g))

(* rows d/dz, d/dr, (1/r) d/dtheta of (z,r,t) over the common denominator        *)
(* Weights.den * EffDist                                                         *)
DerivZRT(c, g, gz, gr) ==
  LET W == Weights(c.src, EffAz(c))
      d == EffDist(c)
  IN << Scale3(c.k * d, Combine(W.w, gz)),
        Scale3(c.k * d, Combine(W.w, gr)),
        Scale3(c.k, Combine(W.wt, IF c.dist = 0 THEN gr ELSE g)) >>

(* physical gradient: the unit vectors turn with theta                            *)
PhysGrad(c, u, D) ==
  LET ur == IF c.dist = 0 THEN D[2][2] ELSE u[2]
      ut == IF c.dist = 0 THEN D[2][3] ELSE u[3]
  IN << D[1], D[2], << D[3][1], D[3][2] - ut, D[3][3] + ur >> >>

SynU(c, g) == IF c.zne THEN RotVec(DispZRT(c, g), EffAz(c)) ELSE DispZRT(c, g)
SynD(c, g, gz, gr) ==
  LET D == DerivZRT(c, g, gz, gr) IN
  IF c.zne THEN RotGrad(PhysGrad(c, DispZRT(c, g), D), EffAz(c)) ELSE D

SynExpected(c, g, gz, gr) ==
  [ u |-> SynU(c, g), d |-> IF c.upar THEN SynD(c, g, gz, gr) ELSE << >>, dens |-> SynDens(c) ]
=============================================================================
