-------------------------- MODULE TraceBlochAngles --------------------------
(* Recorded conversions, checked against BlochAngles.                       *)
EXTENDS BlochAngles, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tix, lix
Ev == Traces[tix].ev
Fail(cond, name) == IF cond THEN {} ELSE {name}
TOL == 60                       \* fixed-point trigonometry is good to a few 1e-8
\* vec: trace and Bloch vector of the returned matrix, herm: is it Hermitian
StepState(e) == Fail(e.tr = S, "trace") \cup Fail(e.herm, "hermitian") \cup Fail(Close3(e.vec, Direction(e.phi, e.theta), TOL), "direction")
StepAngles(e) ==
  Fail(InRange(e.phi, e.theta), "range") \cup
  (IF ~e.pure THEN {} ELSE
   Fail(Plain(e.vec, e.phi, e.theta, TOL) \/ SnapMay(e.vec, e.phi, e.theta, TOL), "direction") \cup
   Fail(SnapMust(e.vec) => e.phi = 0, "wrap"))
StepRefuse(e) == Fail(e.refused = e.bad, IF e.bad THEN "accepted" ELSE "refused")
Handle(e) == IF e.err # "" THEN {"raised"} ELSE CASE e.a = "state" -> StepState(e) [] e.a = "angles" -> StepAngles(e) [] e.a = "refuse" -> StepRefuse(e)
Init == tix \in 1..Len(Traces) /\ lix = 0
Next == /\ lix < Len(Ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET f == Handle(Ev[lix + 1]) IN IF f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<tix, lix>>
=============================================================================
