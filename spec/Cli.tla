--------------------------------- MODULE Cli ---------------------------------
(* The command lines of grt.  A command has slots; a slot S(key, opt, good, bad) is  *)
(* an option (or a form of it: -D, -Ds, -Dr) with documented values and values that   *)
(* no reading of the documentation allows.  An invocation picks for every slot        *)
(* nothing (0), a good value (n) or a bad one (-n).  Valid is a function of the picks  *)
(* only - never of their order - and an invocation that is not Valid is refused with   *)
(* nothing written.                                                                    *)
EXTENDS VP
S(key, opt, good, bad) == [key |-> key, opt |-> opt, good |-> good, bad |-> bad]
Flag(x) == S(x, "-" \o x, <<"">>, <<>>)
Unknown == S("?", "-Z", <<>>, <<"", "1">>)
Threads == S("P", "-P", <<"1", "2">>, <<"0", "-1", "x", "">>)
Out(v) == S("O", "-O", <<v>>, <<"">>)
ModelOpt == S("M", "-M", <<"mod">>, <<"nofile", "">>)
BoundOpt == S("B", "-B", <<"f", "h", "r", "fH", "Hh">>, <<"q", "fq", "fHf", "">>)
\* (a rigid top above a receiver at its surface leaves nothing but rounding noise to integrate)
BoundIn == S("B", "-B", <<"f", "h", "fH", "fR", "Hh">>, <<"q", "fq", "fHf", "">>)
DepthPair == S("D", "-D", <<"2/0", "0.5/1">>, <<"2", "x/0", "2/x", "-1/0", "2/-1", "">>)
DsList == S("Ds", "-Ds", <<"2", "2,3", "1/3/1">>, <<"x", "2,1", "2,2", "-1", "1/3/0", "1/3/-1", "3/1/1", "nofile">>)
DrList == S("Dr", "-Dr", <<"0", "0,1", "0/2/1">>, <<"x", "2,1", "-1", "0/2/0", "2/0/1", "nofile">>)
DistList == S("R", "-R", <<"5", "5,8", "4/8/2">>, <<"x", "-1", "8,5", "5,5", "4/8/0", "4/8/-2", "8/4/2", "nofile", "5,,8,x", "">>)
Fams == S("G", "-G", <<"e", "v", "h", "s", "es", "evhs">>, <<"q", "ex", "">>)
Delay == S("E", "-E", <<"1", "0.5/8", "p-1">>, <<"x", "1/-1", "p", "px", "p1", "p0", "">>)
Conv == S("C", "-C", <<"d", "p", "n">>, <<"q", "">>)
Axis(o) == S(o, "-" \o o, <<"3/4/1", "5/5/1">>, <<"3", "3/4", "x/4/1", "3/4/0", "3/4/-1", "4/3/1", "">>)
OneDepth(k, o) == S(k, o, <<"2">>, <<"x", "-1">>)
RcvDepth == S("Dr", "-Dr", <<"0">>, <<"x", "-1">>)
Mech == S("M", "-M", <<"33/50/120", "33/50", "0/0/-180", "360/90/180">>, <<"33", "x/50/120", "-1/50/120", "361/50/120", "33/-1/120", "33/91/120", "33/50/181", "33/50/-181", "33/91", "">>)
Force == S("F", "-F", <<"1/2/3">>, <<"1/2", "x/2/3", "1", "">>)
Tensor == S("T", "-T", <<"1/2/3/4/5/6">>, <<"1/2/3/4/5", "1", "x/2/3/4/5/6", "">>)
Scale == S("S", "-S", <<"1e20", "u1e10">>, <<"x", "ux", "u", "">>)
Fault == S("C", "-C", <<"flt", "flt+i4/4">>, <<"nofile", "flt+i4", "flt+ix/4", "flt+i0/4", "flt+i4/0", "flt+i-4/4", "flt+q1", "">>)
ModeSel == S("N", "-N", <<"", "0", "0/1", "0/1/1", "1">>, <<"x", "-1", "-1/1", "1/0", "0/1/0", "0/1/-1">>)
\* (frequencies at which the first higher mode exists)
FreqSel == S("F", "-F", <<"2", "1.5/2", "1.5/3/0.5", "0/2/0.1">>, <<"x", "0", "-1", "0.3/0.1", "0.3/0.1/0.1", "0.1/0.3/0", "0.1/0.3/-1", "-0.1/0.3/0.1", "0.1/0.3/0.1+q", "">>)
DispIn == S("C", "-C", <<"disp.nc">>, <<"nofile", "">>)

Slots(cmd) ==
  CASE cmd = "greenfn" -> << ModelOpt, DepthPair, DsList, DrList,
         S("N", "-N", <<"8/0.5", "8/0.5+w1.5", "8/0.5+n2", "8/0.5+a", "8/0.5+f", "8/0.5+w1+n2+a">>, <<"8", "x/0.5", "8/x", "0/0.5", "8/0", "8/-1", "-8/0.5", "8/0.5+w0", "8/0.5+w-1", "8/0.5+wx", "8/0.5+n0", "8/0.5+n-1", "8/0.5+nx", "8/0.5+q", "">>),
         DistList, Out("out"), BoundIn,
         S("H", "-H", <<"0.1/0.5", "-1/-1", "-1/0.5", "0.1/-1">>, <<"0.1", "x/1", "0.5/0.1", "">>),
         S("L", "-L", <<"20", "20+l5", "20+a0.1", "20+l5+o2", "+a0.1">>, <<"x", "20+lx", "20+ax", "20+ox", "20+q1", "20+l5+a0.1", "">>),
         Conv, Delay,
         S("K", "-K", <<"+k40", "+s1.2", "+e0.01", "+v0.5", "+f", "+k40+s1.3">>, <<"+k-1", "+kx", "+s-1", "+sx", "+ex", "+v0", "+v-1", "+vx", "+q1">>),
         Threads, Fams, S("S", "-S", <<"", "1", "0,1">>, <<"-1">>), Flag("e"), Flag("s"), Unknown >>
    [] cmd = "kernel" -> << ModelOpt, DepthPair, S("F", "-F", <<"0.5/1/0.5", "0/1/0.5", "0.5/1/0.5+w1">>, <<"1", "x/1/0.5", "0.5/1", "0.5/1/0", "0.5/1/-1", "1/0.5/0.5", "-1/1/0.5", "0.5/1/0.5+w0", "0.5/1/0.5+wx", "0.5/1/0.5+q", "0.5/0.6/0.5", "">>),
         S("C", "-C", <<"3/4/0.5", "0.5">>, <<"x", "3/4", "0", "-1", "3/4/0", "3/4/-1", "4/3/0.5", "4/4/0.5", "0/4/0.5", "-1/4/0.5", "">>), Out("out"), BoundOpt, Threads, Flag("e"), Unknown >>
    [] cmd = "modsum" -> << DispIn, S("N", "-N", <<"", "0", "0/1", "0/1/1", "1">>, <<"x", "-1", "-1/1", "1/0", "0/1/0", "0/1/-1">>),
         S("F", "-F", <<"0.1/0.3">>, <<"x", "0.1", "0.3/0.1", "-1/0.3", "0.1/-1", "">>), DepthPair, DsList, DrList, DistList, Out("out"), Delay, Fams,
         S("W", "-W", <<"1", "2">>, <<"0", "-1", "x", "">>), Threads, Flag("e"), Unknown >>
    [] cmd = "syn" -> << S("G", "-G", <<"gf">>, <<"nodir", "">>), S("A", "-A", <<"30", "0", "360">>, <<"x", "-1", "361", "">>), Scale, Mech, Force, Tensor, Out("out"),
         S("D", "-D", <<"t/0.5/1/1.5", "r/0.3", "p/2", "0/tf">>, <<"t/1/2", "t/2/1/3", "t/-1/1/2", "t/1/2/2", "p/0", "p/-1", "p/x", "r/0", "r/x", "q/1", "0/nofile", "p0.5", "">>),
         S("I", "-I", <<"1", "2">>, <<"0", "-1", "x", "">>), S("J", "-J", <<"1", "2">>, <<"0", "-1", "x", "">>),
         S("Ds", "-Ds", <<"2">>, <<"x", "-1", "3", "2/3">>), S("Dr", "-Dr", <<"0">>, <<"x", "-1", "1">>), S("R", "-R", <<"5">>, <<"x", "-1", "6", "">>),
         Flag("N"), Flag("e"), Flag("s"), Unknown >>
    [] cmd = "static greenfn" -> << ModelOpt, DepthPair, DsList, DrList, BoundIn,
         S("L", "-L", <<"20", "20+l5", "20+a0.1", "20+l5+o2", "+a0.1">>, <<"x", "20+lx", "20+ax", "20+ox", "20+q1", "20+l5+a0.1", "">>), Conv,
         S("K", "-K", <<"+k40", "+e0.01", "+f">>, <<"+k-1", "+kx", "+ex", "+q1">>), Axis("X"), Axis("Y"), DistList, Out("out.nc"), Flag("S"), Flag("e"), Unknown >>
    [] cmd = "static syn" -> << S("G", "-G", <<"lib.nc">>, <<"nofile", "">>), Out("out.nc"), Scale, Mech, Force, Tensor, Fault, Axis("X"), Axis("Y"),
         S("Ds", "-Ds", <<"2">>, <<"x", "-1", "77">>), RcvDepth, S("Q", "-Q", <<"pts">>, <<"nofile", "">>), Flag("N"), Flag("e"), Flag("s"), Unknown >>
    [] cmd = "okada" -> << S("I", "-I", <<"6/3.5/2.7">>, <<"6", "6/3.5", "x/3.5/2.7", "6/3.5/2.7/1", "">>), Out("out.nc"), S("S", "-S", <<"1e20", "u1e10">>, <<"x", "ux", "u", "">>), Mech,
         S("C", "-C", <<"flt">>, <<"nofile", "flt+i4/4", "">>), Axis("X"), Axis("Y"), OneDepth("Ds", "-Ds"), RcvDepth, S("Q", "-Q", <<"pts">>, <<"nofile", "">>), Flag("N"), Flag("e"), Flag("s"), Unknown >>
    [] cmd = "eigenv" -> << ModelOpt, S("C", "-C", <<"out.nc">>, <<>>), S("S", "-S", <<"R", "L">>, <<"Q", "">>), S("N", "-N", <<"0", "1", "">>, <<"x", "-1">>),
         S("F", "-F", <<"0.1/0.3/0.1", "0.2", "0/0.2/0.1", "2/4/1+p">>, <<"x", "0", "-1", "0.1/0.3", "0.3/0.1/0.1", "0.1/0.3/0", "0.1/0.3/-1", "-0.1/0.3/0.1", "0.1/0.3/0.1+q", "">>),
         S("X", "-X", <<"0.2", "0.2+c2/3", "0.2+i0">>, <<"x", "0", "-1", "0.2+c3/2", "0.2+c-1/2", "0.2+c2", "0.2+ix", "0.2+i-1", "0.2+i99", "0.2+q", "">>),
         S("T", "-T", <<"+t7", "+c3", "+r8", "+v3">>, <<"+tx", "+cx", "+rx", "+vx", "+ux", "+q">>), Threads, Flag("s"), Unknown >>
    [] cmd = "eigenfn" -> << DispIn, ModeSel, FreqSel, S("U", "-U", <<"out.nc">>, <<>>),
         S("K", "-K", <<"+cout2.nc", "+xout3.nc", "+cout2.nc+z1", "+uout4.nc">>, <<"+c", "+x", "+u", "+cout2.nc+z0", "+cout2.nc+z-1", "+cout2.nc+zx", "+q1">>),
         S("W", "-W", <<"out5.nc", "out5.nc+z1", "out5.nc+z0/4/2">>, <<"out5.nc+zx", "out5.nc+z0", "out5.nc+z-1", "out5.nc+z0/4/0", "out5.nc+z4/0/2", "out5.nc+z-1/4/2", "out5.nc+q", "">>), Unknown >>
    [] cmd = "disp2asc" -> << DispIn, S("U", "-U", <<"grp.nc">>, <<"nofile", "">>), ModeSel, FreqSel, Unknown >>
    [] cmd = "travt" -> << ModelOpt, S("D", "-D", <<"2/0", "0.5/1">>, <<"2", "x/0", "2/x", "-1/0", "2/-1", "">>), S("R", "-R", <<"5", "5,8", "4/8/2">>, <<"x", "-1", "4/8/0", "8/4/2", "nofile">>), Unknown >>
    [] cmd = "lamb1" -> << S("P", "-P", <<"0.25">>, <<"x", "0", "0.5", "-0.1", "0.6", "">>), S("T", "-T", <<"0/2/0.5", "1/1/1">>, <<"x", "0/2", "0/2/0", "0/2/-1", "2/0/0.5", "-1/2/0.5", "">>), S("A", "-A", <<"0", "30">>, <<"x", "-1", "361", "">>), Unknown >>
Cmds == <<"greenfn", "kernel", "modsum", "syn", "static greenfn", "static syn", "okada", "eigenv", "eigenfn", "disp2asc", "travt", "lamb1">>

(* -------------------------------------------------------------------- validity *)
One(P, A) == Cardinality(P \cap A) = 1
AtMost1(P, A) == Cardinality(P \cap A) <= 1
Both(P, a, b) == (a \in P) <=> (b \in P)
DepthRule(P) == Both(P, "Ds", "Dr") /\ One(P, {"D", "Ds"})
Rule(cmd, P) ==
  CASE cmd = "greenfn" -> {"M", "N", "R", "O"} \subseteq P /\ DepthRule(P)
    [] cmd = "kernel" -> {"M", "D", "F", "C", "O"} \subseteq P
    [] cmd = "modsum" -> {"C", "O", "R"} \subseteq P /\ DepthRule(P)
    [] cmd = "syn" -> {"G", "A", "S", "O"} \subseteq P /\ AtMost1(P, {"M", "F", "T"})
    [] cmd = "static greenfn" -> {"M", "O"} \subseteq P /\ DepthRule(P) /\ Both(P, "X", "Y") /\ One(P, {"R", "X"})
    \* lib.nc holds several source depths, so a point source must name one
    [] cmd = "static syn" -> {"G", "O"} \subseteq P /\ One(P, {"S", "C"}) /\ AtMost1(P, {"M", "F", "T", "C"}) /\ Both(P, "X", "Y") /\ AtMost1(P, {"Q", "X"}) /\ AtMost1(P, {"Q", "Dr"}) /\ One(P, {"C", "Ds"})
    [] cmd = "okada" -> {"I", "O"} \subseteq P /\ One(P, {"S", "C"}) /\ AtMost1(P, {"M", "C"}) /\ Both(P, "S", "Ds") /\ Both(P, "X", "Y") /\ Both(P, "X", "Dr") /\ One(P, {"Q", "X"})
    [] cmd = "eigenv" -> {"M", "S"} \subseteq P /\ One(P, {"F", "X"}) /\ ("F" \in P => "C" \in P)
    [] cmd = "eigenfn" -> {"C"} \subseteq P
    [] cmd = "disp2asc" -> One(P, {"C", "U"})
    [] cmd = "travt" -> {"M", "D", "R"} \subseteq P
    [] cmd = "lamb1" -> {"P", "T", "A"} \subseteq P
(* an eigenfn without -U, -K or -W (or with files the dispersion gives no values for) has nothing to write *)
Produces(cmd, P) == cmd # "eigenfn" \/ P \cap {"U", "K", "W"} # {}
Present(cmd, v) == { Slots(cmd)[k].key : k \in { k \in 1..Len(v) : v[k] # 0 } }
AnyBad(v) == \E k \in 1..Len(v) : v[k] < 0
Valid(cmd, v) == ~AnyBad(v) /\ Rule(cmd, Present(cmd, v))

(* ------------------------------------------------------------ base invocations *)
Pick(cmd, K) == [k \in 1..Len(Slots(cmd)) |-> IF Slots(cmd)[k].key \in K THEN 1 ELSE 0]
Bases(cmd) ==
  CASE cmd \in {"greenfn", "modsum"} -> LET m == IF cmd = "greenfn" THEN {"M", "N", "R", "O"} ELSE {"C", "R", "O"} IN { m \cup {"D"}, m \cup {"Ds", "Dr"} }
    [] cmd = "kernel" -> { {"M", "D", "F", "C", "O"} }
    [] cmd = "syn" -> { {"G", "A", "S", "O", "M"}, {"G", "A", "S", "O", "F"}, {"G", "A", "S", "O", "e", "N"} }
    [] cmd = "static greenfn" -> { {"M", "O", "D", "X", "Y"}, {"M", "O", "D", "R"}, {"M", "O", "Ds", "Dr", "R", "e"} }
    [] cmd = "static syn" -> { {"G", "O", "S", "M", "X", "Y", "Ds", "Dr"}, {"G", "O", "S", "Q", "Ds"}, {"G", "O", "C", "Q"}, {"G", "O", "C", "X", "Y", "Dr"} }
    [] cmd = "okada" -> { {"I", "O", "S", "M", "Ds", "X", "Y", "Dr"}, {"I", "O", "C", "Q"}, {"I", "O", "C", "X", "Y", "Dr"} }
    [] cmd = "eigenv" -> { {"M", "S", "F", "C"}, {"M", "S", "X"} }
    [] cmd = "eigenfn" -> { {"C", "U"}, {"C", "W"}, {"C", "K"} }
    [] cmd = "disp2asc" -> { {"C"}, {"U"} }
    [] cmd = "travt" -> { {"M", "D", "R"} }
    [] cmd = "lamb1" -> { {"P", "T", "A"} }
=============================================================================
