-------------------------------- MODULE Recip --------------------------------
(* Source-receiver reciprocity (property C16).                                    *)
(* Elastodynamics: u_i(r; force e_j at s) = u_j(s; force e_i at r), and a moment    *)
(* tensor is a distribution of force couples, so                                    *)
(*      u_i(r; M at s) = M : E(s; force e_i at r),   E the strain.                  *)
(* In the Green's-function families this becomes the linear relations below.        *)
(* A reversed field b is [o, z, r, u]: for each of VFZ VFR HFZ HFR HFT the           *)
(* displacement u, u divided by the distance o, and its z (up) and r derivatives.   *)
EXTENDS Syn

Names == << "VFZ", "VFR", "HFZ", "HFR", "HFT", "EXZ", "EXR", "DDZ", "DDR", "DSZ", "DSR", "DST", "SSZ", "SSR", "SST" >>
vz == 1  vr == 2  hz == 3  hr == 4  ht == 5

Rel(name, b) ==
  LET u == b.u o == b.o z == b.z r == b.r IN
  CASE name = "VFZ" -> u[vz]
    [] name = "VFR" -> u[hz]
    [] name = "HFZ" -> u[vr]
    [] name = "HFR" -> u[hr]
    [] name = "HFT" -> u[ht]
    [] name = "EXZ" -> -(r[vr] + o[vr] + z[vz])
    [] name = "DDZ" -> r[vr] + o[vr] - 2*z[vz]
    [] name = "DSZ" -> z[vr] + r[vz]
    [] name = "SSZ" -> o[vr] - r[vr]
    [] name = "EXR" -> o[ht] - o[hr] - r[hr] - z[hz]
    [] name = "DDR" -> r[hr] + o[hr] - o[ht] - 2*z[hz]
    [] name = "DSR" -> z[hr] + r[hz]
    [] name = "SSR" -> o[hr] - o[ht] - r[hr]
    [] name = "DST" -> z[ht] + o[hz]
    [] name = "SST" -> o[ht] - o[hr] - r[ht]

(* forward families <<EX, VF, HF, DD, DS, SS>> of <<Z, R, T>> from values by name     *)
Families(v) ==
  << <<v["EXZ"], v["EXR"], 0>>, <<v["VFZ"], v["VFR"], 0>>, <<v["HFZ"], v["HFR"], v["HFT"]>>,
     <<v["DDZ"], v["DDR"], 0>>, <<v["DSZ"], v["DSR"], v["DST"]>>, <<v["SSZ"], v["SSR"], v["SST"]>> >>
(* a reversed field as families: only the forces                                      *)
BackFam(w) == << <<0,0,0>>, <<w[vz], w[vr], 0>>, <<w[hz], w[hr], w[ht]>>, <<0,0,0>>, <<0,0,0>>, <<0,0,0>> >>

(* the same statement in Cartesian tensors: axes z(up), n, e                          *)
UnitF == << <<0, 0, -1>>, <<1, 0, 0>>, <<0, 1, 0>> >>          \* forces up, north, east as (n, e, down)
Back(az) == Ang(-az.c, -az.s, az.h)
DotF(f, u) == -f[3]*u[1] + f[1]*u[2] + f[2]*u[3]
(* M given as <<nn, ne, nd, ee, ed, dd>>, D[i][j] = d_i u_j over z, n, e               *)
DotM(m, D) == m[1]*D[2][2] + m[2]*(D[2][3] + D[3][2]) - m[3]*(D[2][1] + D[1][2])
              + m[4]*D[3][3] - m[5]*(D[3][1] + D[1][3]) + m[6]*D[1][1]

Cfg(src, az, d) == [src |-> src, az |-> az, dist |-> d, k |-> 1, zne |-> TRUE, upar |-> TRUE]

ForceRecip(fam, b, az, d, f1, f2) ==
  LET c1 == Cfg([type |-> "SF", f |-> f1], az, d)  c2 == Cfg([type |-> "SF", f |-> f2], Back(az), d) IN
  DotF(f2, SynU(c1, fam)) * SynDens(c2).u = DotF(f1, SynU(c2, BackFam(b.u))) * SynDens(c1).u

MomentRecip(fam, b, az, d, m, f) ==
  LET c1 == Cfg([type |-> "MT", m |-> m], az, d)  c2 == Cfg([type |-> "SF", f |-> f], Back(az), d) IN
  DotF(f, SynU(c1, fam)) * SynDens(c2).zr
    = DotM(m, SynD(c2, BackFam(b.u), BackFam(b.z), BackFam(b.r))) * SynDens(c1).u
=============================================================================
