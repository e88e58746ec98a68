-------------------------------- MODULE Wrapper --------------------------------
(* The Python interface as a state machine: a session creates model handles and   *)
(* calls wrappers.  A call either is refused (an exception, nothing executed) or   *)
(* executes exactly one command whose request is a function of the handle's        *)
(* construction arguments and this call's arguments only.                          *)
(*                                                                                 *)
(* An argument is [v, neg, zero, asc, bad]: v is <<"none">> or <<"val", ...>> with  *)
(* canonical decimal texts; neg/zero/asc say whether some number is negative, all   *)
(* are zero, the list is strictly ascending; bad marks strings or nested lists      *)
(* where numbers belong.                                                            *)
EXTENDS VP
None == <<"none">>
Has(x) == x.v # None
Vals(x) == Tail(x.v)
N(x) == Len(x.v) - 1
Yes(x) == x.v = <<"val", "T">>
Flag(x) == IF Yes(x) THEN <<"T">> ELSE <<"F">>
BadSeq(x) == x.bad \/ ~Has(x) \/ N(x) = 0 \/ x.neg \/ (N(x) > 1 /\ ~x.asc)
Opt(x) == IF Has(x) THEN Vals(x) ELSE None
OrZero(x) == IF x.zero THEN <<"0">> ELSE Vals(x)

Bounds == {"free", "rigid", "halfspace"}
Methods == {"AUTO", "DCM", "PTAM", "NONE"}
Sources == {"EX", "VF", "HF", "DC"}

(* ------------------------------------------------------------ model handle *)
NewRefused(a) == a.topbound.v[2] \notin Bounds \/ a.botbound.v[2] \notin Bounds \/ (Has(a.modelpath) /\ a.modelpath.bad)

(* ------------------------------------------------------- point-source group *)
HasGeo(a) == Has(a.strike) \/ Has(a.dip) \/ Has(a.rake)
SrcRefused(a) ==
  \/ Has(a.force) /\ (HasGeo(a) \/ Has(a.moment_tensor) \/ N(a.force) # 3)
  \/ Has(a.moment_tensor) /\ (HasGeo(a) \/ N(a.moment_tensor) # 6)
  \/ HasGeo(a) /\ ~(Has(a.strike) /\ Has(a.dip))
SrcReq(a) ==
  CASE Has(a.force) -> <<"F">> \o Vals(a.force)
    [] Has(a.moment_tensor) -> <<"T">> \o Vals(a.moment_tensor)
    [] HasGeo(a) -> <<"M">> \o Vals(a.strike) \o Vals(a.dip) \o (IF Has(a.rake) THEN Vals(a.rake) ELSE <<>>)
    [] OTHER -> <<"EX">>
ScaleReq(a) == (IF Yes(a.scale_with_mu) THEN <<"u">> ELSE <<"1">>) \o Vals(a.scale)

(* ------------------------------------------------------- Green's functions *)
GreenRefused(o, a) ==
  \/ ~Has(o.grn) \/ ~Has(o.modelpath)
  \/ a.nt.neg \/ a.nt.zero \/ a.dt.neg \/ a.dt.zero
  \/ BadSeq(a.depsrc) \/ BadSeq(a.deprcv) \/ BadSeq(a.dists)
  \/ a.freqband.bad \/ N(a.freqband) # 2
  \/ a.converg_method.v[2] \notin Methods
  \/ Has(a.gf_source) /\ ~(Range(Vals(a.gf_source)) \subseteq Sources)
GreenReq(o, a) ==
  [sub |-> <<"greenfn">>, model |-> Vals(o.modelpath), out |-> Vals(o.grn), bound |-> Vals(o.topbound) \o Vals(o.botbound),
   ds |-> Vals(a.depsrc), dr |-> Vals(a.deprcv), r |-> Vals(a.dists),
   nt |-> Vals(a.nt), dt |-> Vals(a.dt), zeta |-> Vals(a.zeta), ups |-> Vals(a.upsampling_n),
   all |-> Flag(a.keepAllFreq), noimag |-> Flag(a.skipImagComps), band |-> Vals(a.freqband),
   len |-> Vals(a.Length), fil |-> OrZero(a.filonLength), saf |-> OrZero(a.safilonTol), cut |-> OrZero(a.filonCut),
   conv |-> Vals(a.converg_method), k0 |-> Vals(a.k0), ampk |-> Vals(a.ampk), keps |-> Vals(a.keps), vmin |-> OrZero(a.vmin_ref), kref |-> Flag(a.use_kmax_ref),
   delay |-> IF Yes(a.ref_first_p) THEN <<"p">> \o Vals(a.delayT0) ELSE <<"v">> \o Vals(a.delayT0) \o Vals(a.delayV0),
   src |-> IF Has(a.gf_source) THEN Vals(a.gf_source) ELSE <<"DC", "EX", "HF", "VF">>,
   stats |-> IF ~Has(a.statsidxs) THEN None ELSE IF N(a.statsidxs) = 0 THEN <<"all">> ELSE Vals(a.statsidxs),
   upar |-> Flag(a.calc_upar), silent |-> IF Yes(a.print_log) THEN <<"F">> ELSE <<"T">>]

StGreenRefused(o, a) ==
  \/ ~Has(o.stgrn) \/ ~Has(o.modelpath)
  \/ BadSeq(a.depsrc) \/ BadSeq(a.deprcv)
  \/ Has(a.dists) /\ (Has(a.norths) \/ Has(a.easts) \/ BadSeq(a.dists))
  \/ ~Has(a.dists) /\ ~(Has(a.norths) /\ Has(a.easts))
  \/ Has(a.norths) /\ N(a.norths) # 3
  \/ Has(a.easts) /\ N(a.easts) # 3
  \/ a.converg_method.v[2] \notin Methods
GridReq(a) == IF Has(a.norths) THEN <<"XY">> \o Vals(a.norths) \o Vals(a.easts) ELSE None
StGreenReq(o, a) ==
  [sub |-> <<"static", "greenfn">>, model |-> Vals(o.modelpath), out |-> Vals(o.stgrn), bound |-> Vals(o.topbound) \o Vals(o.botbound),
   ds |-> Vals(a.depsrc), dr |-> Vals(a.deprcv), place |-> IF Has(a.dists) THEN <<"R">> \o Vals(a.dists) ELSE GridReq(a),
   len |-> Vals(a.Length), fil |-> OrZero(a.filonLength), saf |-> OrZero(a.safilonTol), cut |-> OrZero(a.filonCut),
   conv |-> Vals(a.converg_method), k0 |-> Vals(a.k0), keps |-> Vals(a.keps), kref |-> Flag(a.use_kmax_ref),
   stats |-> IF Yes(a.stats) /\ N(a.depsrc) = 1 /\ N(a.deprcv) = 1 THEN <<"all">> ELSE None,
   upar |-> Flag(a.calc_upar)]

(* --------------------------------------------------------------- synthesis *)
SynRefused(o, a) == ~Has(o.grn) \/ a.dist.neg \/ a.depsrc.neg \/ a.deprcv.neg \/ SrcRefused(a)
SynReq(o, a) ==
  [sub |-> <<"syn">>, lib |-> Vals(o.grn), out |-> Vals(a.output_path), az |-> Vals(a.azimuth), scale |-> ScaleReq(a), source |-> SrcReq(a),
   ds |-> Opt(a.depsrc), dr |-> Opt(a.deprcv), r |-> Opt(a.dist), tf |-> Opt(a.time_function), int |-> Opt(a.integrate_order), dif |-> Opt(a.differentiate_order),
   zne |-> Flag(a.zne), upar |-> Flag(a.calc_upar)]

StSynRefused(o, a) ==
  LET pt == Has(a.scale) \/ Yes(a.scale_with_mu) \/ HasGeo(a) \/ Has(a.force) \/ Has(a.moment_tensor)
      xy == Has(a.norths) \/ Has(a.easts) IN
  \/ ~Has(o.stgrn)
  \/ Has(a.finite_fault) /\ (pt \/ Has(a.depsrc))
  \/ ~Has(a.finite_fault) /\ (~Has(a.scale) \/ SrcRefused(a) \/ Has(a.subfault_size))
  \/ Has(a.subfault_size) /\ N(a.subfault_size) # 2
  \/ Has(a.recv_points) /\ (xy \/ Has(a.deprcv))
  \/ xy /\ (~Has(a.norths) \/ ~Has(a.easts) \/ N(a.norths) # 3 \/ N(a.easts) # 3)
  \/ a.depsrc.neg \/ a.deprcv.neg
StSynReq(o, a) ==
  [sub |-> <<"static", "syn">>, lib |-> Vals(o.stgrn), out |-> Vals(a.output_path),
   source |-> IF Has(a.finite_fault) THEN <<"C">> \o Vals(a.finite_fault) \o (IF Has(a.subfault_size) THEN Vals(a.subfault_size) ELSE <<>>)
              ELSE SrcReq(a) \o ScaleReq(a),
   ds |-> Opt(a.depsrc), dr |-> Opt(a.deprcv),
   place |-> IF Has(a.recv_points) THEN <<"Q">> \o Vals(a.recv_points) ELSE GridReq(a),
   zne |-> Flag(a.zne), upar |-> Flag(a.calc_upar)]

OkadaRefused(a) ==
  LET pt == Has(a.scale) \/ Yes(a.scale_with_mu) \/ HasGeo(a) \/ Has(a.depsrc)
      xy == Has(a.norths) \/ Has(a.easts) IN
  \/ a.modelparams.bad \/ N(a.modelparams) # 3
  \/ Has(a.finite_fault) /\ pt
  \/ ~Has(a.finite_fault) /\ (~Has(a.scale) \/ ~Has(a.depsrc) \/ (HasGeo(a) /\ ~(Has(a.strike) /\ Has(a.dip))))
  \/ Has(a.recv_points) /\ (xy \/ Has(a.deprcv))
  \/ ~Has(a.recv_points) /\ (~Has(a.norths) \/ ~Has(a.easts) \/ ~Has(a.deprcv) \/ N(a.norths) # 3 \/ N(a.easts) # 3)
  \/ a.depsrc.neg \/ a.deprcv.neg
OkadaReq(a) ==
  [sub |-> <<"okada">>, model |-> Vals(a.modelparams), out |-> Vals(a.output_path),
   source |-> IF Has(a.finite_fault) THEN <<"C">> \o Vals(a.finite_fault)
              ELSE (IF HasGeo(a) THEN <<"M">> \o Vals(a.strike) \o Vals(a.dip) \o (IF Has(a.rake) THEN Vals(a.rake) ELSE <<>>) ELSE <<"EX">>) \o ScaleReq(a),
   ds |-> Opt(a.depsrc), dr |-> Opt(a.deprcv),
   place |-> IF Has(a.recv_points) THEN <<"Q">> \o Vals(a.recv_points) ELSE GridReq(a),
   zne |-> Flag(a.zne), upar |-> Flag(a.calc_upar)]

(* post-processing: what the path is decides the command *)
PostRefused(a) == a.path.bad
PostReq(fn, a) == [sub |-> IF a.kind = "dir" THEN <<fn>> ELSE <<"static", fn>>, path |-> Vals(a.path)]

Refused(fn, o, a) ==
  CASE fn = "new" -> NewRefused(a)
    [] fn = "compute_grn" -> GreenRefused(o, a)
    [] fn = "compute_static_grn" -> StGreenRefused(o, a)
    [] fn = "compute_syn" -> SynRefused(o, a)
    [] fn = "compute_static_syn" -> StSynRefused(o, a)
    [] fn = "compute_okada" -> OkadaRefused(a)
    [] OTHER -> PostRefused(a)
Request(fn, o, a) ==
  CASE fn = "compute_grn" -> GreenReq(o, a)
    [] fn = "compute_static_grn" -> StGreenReq(o, a)
    [] fn = "compute_syn" -> SynReq(o, a)
    [] fn = "compute_static_syn" -> StSynReq(o, a)
    [] fn = "compute_okada" -> OkadaReq(a)
    [] fn = "compute_strain" -> PostReq("strain", a)
    [] fn = "compute_rotation" -> PostReq("rotation", a)
    [] fn = "compute_stress" -> PostReq("stress", a)
=============================================================================
