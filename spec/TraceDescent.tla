---------------------------- MODULE TraceDescent ----------------------------
(* Recorded runs of the parameter-shift optimizer, checked against Descent. *)
(* The specification carries the parameters itself; where the run returned  *)
(* its own they must agree, and are taken over (so rounding cannot pile up). *)
EXTENDS Descent, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
TOL == 3000
VARIABLES tix, lix, o, th
Fail(cond, name) == IF cond THEN {} ELSE {name}
CloseSeq(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k], tol)
Belongs(e, p, gs, obs) ==
  LET r == State(gs, p) IN
  Fail(Close(e.cost, CostAt(r, obs), TOL), "cost") \cup
  Fail(e.st # <<>> => CloseVec(e.st, r, TOL), "state") \cup
  Fail(e.par # <<>> => CloseSeq(e.par, p, TOL), "parameters")
Handle(e) ==
  IF e.err # "" THEN [f |-> {"raised"}, o |-> o, th |-> th]
  ELSE CASE e.a = "start" -> [f |-> Belongs(e, e.theta, e.gates, e.obs), o |-> [gates |-> e.gates, obs |-> e.obs, eta |-> e.eta], th |-> e.theta]
         [] e.a = "step" -> LET p == DescentStep(o.gates, th, o.obs, o.eta) IN
                            [f |-> Belongs(e, p, o.gates, o.obs), o |-> o, th |-> IF e.par # <<>> /\ Len(e.par) = Len(p) THEN e.par ELSE p]
         [] e.a = "lens" -> [f |-> Fail(e.nst \in {-1, e.n} /\ e.npar \in {-1, e.n}, "lengths"), o |-> o, th |-> th]
Init == tix \in 1..Len(Traces) /\ lix = 0 /\ o = <<>> /\ th = <<>>
Next == /\ lix < Len(Traces[tix].ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET r == Handle(Traces[tix].ev[lix + 1]) IN
             /\ o' = r.o /\ th' = r.th
             /\ IF r.f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(r.f)]))
Spec == Init /\ [][Next]_<<tix, lix, o, th>>
=============================================================================
