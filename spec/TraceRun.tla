------------------------------ MODULE TraceRun ------------------------------
(* Recorded runs of the optimizers of /repo, checked against OptLoopOps.    *)
(* First event of a trace: the options; then one event per executed step;   *)
(* then "end".                                                              *)
EXTENDS OptLoopOps, FiniteSets, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tix, lix, o, costs, kicks
Fail(cond, name) == IF cond THEN {} ELSE {name}
K == Len(costs) - 1
\* dist: how far the unitary entering this step is from the one leaving the step before (NONE if not observable)
\* small: its bound
MILLION == 100            \* 1e-6
StepRun(e) ==
  LET cs == Append(costs, e.cost)
      k == K + 1
      kicked == (k - 2) \in kicks          \* recorded index of the step before
  IN  [c |-> cs,
       f |-> Fail(k <= o.nsteps, "too-many-steps") \cup
             \* the step before must not have ended the run
             Fail(k >= 2 /\ ~o.perturb => ~Must(costs, o.kind, k - 1, o.tol), "ran-on") \cup
             (IF e.dist = NONE THEN {}
              ELSE IF o.pknown /\ kicked THEN Fail(e.dist > MILLION /\ e.dist <= 70000000, "kick-size")
              ELSE IF o.pknown \/ ~o.perturb THEN Fail(e.dist <= MILLION, "unexpected-kick")
              ELSE Fail(k >= 2 /\ Must(costs, o.kind, k - 1, o.tol) => e.dist > MILLION, "no-kick") \cup
                   Fail(k < 2 \/ ~May(costs, o.kind, k - 1, o.tol) => e.dist <= MILLION, "unexpected-kick"))]
EndRun(e) ==
  Fail(K = o.nsteps \/ (~o.perturb /\ May(costs, o.kind, K, o.tol)), "ended-early") \cup
  (IF ~o.pknown THEN {} ELSE
    Fail(\A i \in 1..Len(e.pert) : i > 1 => e.pert[i-1] < e.pert[i], "perturbation-order") \cup
    Fail(\A i \in 1..Len(e.pert) : e.pert[i] + 1 \in 1..K /\ May(costs, o.kind, e.pert[i] + 1, o.tol), "perturbation-extra") \cup
    Fail(o.perturb => \A k \in 1..K : Must(costs, o.kind, k, o.tol) => \E i \in 1..Len(e.pert) : e.pert[i] + 1 = k, "perturbation-missing") \cup
    Fail(~o.perturb => e.pert = <<>>, "perturbation-without")) \cup
  \* a kick after the last step shows in the unitary returned
  (IF e.dist = NONE THEN {}
   ELSE IF o.perturb /\ Must(costs, o.kind, K, o.tol) THEN Fail(e.dist > MILLION /\ e.dist <= 70000000, "kick-size")
   ELSE IF ~o.perturb \/ ~May(costs, o.kind, K, o.tol) THEN Fail(e.dist <= MILLION, "unexpected-kick") ELSE {})
\* order of the results: e.kinds as recognised by their contents
Wanted(e) == {e.wanted[i] : i \in 1..Len(e.wanted)}
StepTuple(e) == Fail(IF e.wanted = <<>> THEN e.plain ELSE ~e.plain /\ e.kinds = Returned(e.kind, Wanted(e)), "result-order")

Init == tix \in 1..Len(Traces) /\ lix = 0 /\ o = <<>> /\ costs = <<>> /\ kicks = {}
Handle(e) ==
  IF e.err # "" THEN [f |-> {"raised"}, o |-> o, c |-> costs, k |-> kicks] ELSE
  CASE e.a = "run" -> [f |-> {}, o |-> e, c |-> <<e.cost>>, k |-> {e.pert[i] : i \in 1..Len(e.pert)}]
    [] e.a = "step" -> LET r == StepRun(e) IN [f |-> r.f, o |-> o, c |-> r.c, k |-> kicks]
    [] e.a = "end" -> [f |-> EndRun(e), o |-> o, c |-> costs, k |-> kicks]
    [] e.a = "tuple" -> [f |-> StepTuple(e), o |-> o, c |-> costs, k |-> kicks]
Next == /\ lix < Len(Traces[tix].ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET r == Handle(Traces[tix].ev[lix + 1]) IN
             /\ o' = r.o /\ costs' = r.c /\ kicks' = r.k
             /\ IF r.f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(r.f)]))
Spec == Init /\ [][Next]_<<tix, lix, o, costs, kicks>>
=============================================================================
