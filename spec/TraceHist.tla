----------------------------- MODULE TraceHist -----------------------------
(* Histories returned by runs of /repo: entry by entry they must describe   *)
(* one and the same sequence of unitaries.                                  *)
EXTENDS Layers, OptLoopOps, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
TOL == 2000
FINE == 200
VARIABLES tix, lix, o, prev
Fail(cond, name) == IF cond THEN {} ELSE {name}
\* entry k: r the state of the unitary after k steps (from the unitaries or the scripted layers, <<>> if unknown),
\* st the returned state (<<>> if not requested), cost; lay the layer that acted (0 unknown), rin the state it was given
StepEntry(e) ==
  LET r == IF e.r # <<>> THEN e.r ELSE e.st IN
  Fail(r # <<>> => Close(e.cost, Cost(r, o.obs), TOL), "cost") \cup
  Fail(e.r # <<>> /\ e.st # <<>> => CloseVec(e.st, e.r, TOL), "state") \cup
  Fail(e.un # <<>> /\ e.r # <<>> => CloseVec(e.un, e.r, TOL), "unitary") \cup
  Fail(e.k > 0 /\ e.lay > 0 => e.lay = o.pat[LayerAt(e.k, Len(o.pat))], "layer-order") \cup
  Fail(e.k > 0 /\ e.rin # <<>> /\ prev # <<>> => CloseVec(e.rin, prev, TOL), "layer-input") \cup
  \* whole matrices: returned unitary against the layer's output (entry 0 up to a phase), returned state against
  \* the first column, unitary handed to the layer against the output of the layer before
  Fail(e.du <= FINE, "unitary") \cup Fail(e.ds <= FINE, "state") \cup Fail(e.din <= FINE, "layer-input")
StepLens(e) ==
  Fail(e.nstate \in {NONE, e.ncost}, "state-count") \cup Fail(e.nun \in {NONE, e.ncost}, "unitary-count") \cup
  Fail(e.nomega \in {NONE, e.ncost - 1}, "gradient-count") \cup Fail(e.ngates \in {NONE, e.ncost - 1}, "gate-count") \cup
  Fail(e.nzass \in {NONE, e.ncost - 1}, "phase-count") \cup Fail(e.nparams \in {NONE, e.ncost}, "params-count") \cup
  Fail(e.steps \in {NONE, e.ncost - 1}, "step-count")
Handle(e) ==
  IF e.err # "" THEN [f |-> {"raised"}, o |-> o, p |-> <<>>] ELSE
  CASE e.a = "run" -> [f |-> {}, o |-> e, p |-> <<>>]
    [] e.a = "entry" -> [f |-> StepEntry(e), o |-> o, p |-> IF e.r # <<>> THEN e.r ELSE e.st]
    [] e.a = "lens" -> [f |-> StepLens(e), o |-> o, p |-> <<>>]
Init == tix \in 1..Len(Traces) /\ lix = 0 /\ o = <<>> /\ prev = <<>>
Next == /\ lix < Len(Traces[tix].ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET r == Handle(Traces[tix].ev[lix + 1]) IN
             /\ o' = r.o /\ prev' = r.p
             /\ IF r.f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(r.f)]))
Spec == Init /\ [][Next]_<<tix, lix, o, prev>>
=============================================================================
