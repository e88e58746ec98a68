------------------------------- MODULE WrapperMC -------------------------------
(* Every combination of argument presence for the wrappers with mutually exclusive  *)
(* arguments.  Faithful: two accepted calls that differ in exactly one argument      *)
(* never make the same request (nothing is dropped or confused), and an argument     *)
(* swap never cancels out.  Decided: at most one source group and one receiver        *)
(* group survives acceptance.  DropRake / FirstWins are defective variants.           *)
EXTENDS Wrapper
CONSTANTS Small, DropRake, FirstWins
VARIABLES fn, a
No == [v |-> None, neg |-> FALSE, zero |-> FALSE, asc |-> TRUE, bad |-> FALSE]
V(s) == [No EXCEPT !.v = <<"val">> \o s]
B(x) == V(<<IF x THEN "T" ELSE "F">>)
Neg(s) == [V(s) EXCEPT !.neg = TRUE]
Obj == [grn |-> V(<<"G">>), stgrn |-> V(<<"S">>), modelpath |-> V(<<"m">>), topbound |-> V(<<"free">>), botbound |-> V(<<"halfspace">>)]
Bool == IF Small THEN {B(FALSE)} ELSE {B(FALSE), B(TRUE)}
One(s) == {No, V(<<s>>)}
Depth(s) == IF Small THEN One(s) ELSE One(s) \cup {Neg(<<s>>)}
Rng(s) == {No, V(<<s, s, s>>), V(<<s, s>>)}

StSynArgs == [strike : One("st"), dip : One("di"), rake : One("ra"), force : {No, V(<<"f", "f">>), V(<<"f", "g", "h">>)},
              moment_tensor : {No, V(<<"m", "m", "m", "m", "m">>), V(<<"1", "2", "3", "4", "5", "6">>)},
              scale : One("sc"), scale_with_mu : {B(FALSE), B(TRUE)}, depsrc : Depth("ds"), deprcv : Depth("dr"), norths : Rng("n"), easts : Rng("e"),
              recv_points : One("q"), finite_fault : One("c"), subfault_size : {No, V(<<"l">>), V(<<"l", "w">>)}, zne : Bool, calc_upar : Bool, output_path : {V(<<"o">>)}]
OkArgs == [modelparams : {V(<<"a", "b">>), V(<<"a", "b", "r">>)}, strike : One("st"), dip : One("di"), rake : One("ra"), scale : One("sc"), scale_with_mu : {B(FALSE), B(TRUE)},
           depsrc : Depth("ds"), deprcv : Depth("dr"), norths : Rng("n"), easts : Rng("e"), recv_points : One("q"), finite_fault : One("c"), zne : {B(FALSE), B(TRUE)}, calc_upar : {B(FALSE), B(TRUE)}, output_path : {V(<<"o">>)}]

Ref(x) == IF FirstWins THEN Refused(fn, Obj, x) /\ ~(Has(x.recv_points) /\ ~Refused(fn, Obj, [x EXCEPT !.deprcv = No])) ELSE Refused(fn, Obj, x)
ReqOf(x) == IF DropRake /\ fn = "compute_static_syn" /\ Has(x.rake) THEN Request(fn, Obj, [x EXCEPT !.rake = No])
            ELSE IF FirstWins /\ Has(x.recv_points) THEN Request(fn, Obj, [x EXCEPT !.deprcv = No]) ELSE Request(fn, Obj, x)

Init == \/ fn = "compute_static_syn" /\ a \in StSynArgs
        \/ fn = "compute_okada" /\ a \in OkArgs
Next == UNCHANGED <<fn, a>>
Spec == Init /\ [][Next]_<<fn, a>>

Alt(x) == {No, V(<<"Z">>), V(<<"Z", "Y">>), V(<<"Z", "Y", "X">>), V(<<"6", "5", "4", "3", "2", "1">>)} \ {x}
Flags == {"scale_with_mu", "zne", "calc_upar"}
Faithful ==
  ~Ref(a) =>
    \A k \in DOMAIN a : \A v \in (IF k \in Flags THEN {B(TRUE), B(FALSE)} ELSE Alt(a[k])) \ {a[k]} :
      (k = "output_path" /\ ~Has(v)) \/ LET b == [a EXCEPT ![k] = v] IN
        Ref(b) \/ ReqOf(b) # ReqOf(a)
Decided ==
  ~Ref(a) => /\ (Has(a.finite_fault) => ~Has(a.scale))
             /\ ~(Has(a.recv_points) /\ (Has(a.norths) \/ Has(a.easts) \/ Has(a.deprcv)))
             /\ (fn = "compute_static_syn" => Cardinality({k \in {"force", "moment_tensor", "strike"} : Has(a[k])}) <= 1)
             /\ (Has(a.finite_fault) \/ Has(a.scale))
=============================================================================
