---------------------------- MODULE TraceCircuit ----------------------------
(* Circuits extracted by /repo, checked against module Circuits. *)
EXTENDS Circuits, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
TOL == 2000
FINE == 200
VARIABLES tix, lix
Fail(cond, name) == IF cond THEN {} ELSE {name}
\* img[j]: Pauli vector of U Probe(j) U^-1; nops, wires: what was extracted
StepExtract(e) ==
  \* PennyLane may already have decomposed a gate, so only an empty circuit fixes their number
  Fail(e.gates = <<>> => e.wires = <<>>, "gates") \cup
  Fail(\A j \in 1..(2 * N) : CloseVec(e.img[j], ApplyCircuit(Probe(j), e.gates), TOL), "unitary")
StepInitial(e) ==
  Fail(\A j \in 1..(2 * N) : CloseVec(e.img[j], ApplyCircuit(Probe(j), e.gates), TOL), "unitary")
StepState(e) == Fail(CloseVec(e.r, ApplyCircuit(Zero, e.gates), TOL), "state")
StepExpval(e) == Fail(Close(e.v, Expect(ApplyCircuit(Zero, e.gates), e.obs), TOL), "expectation")
StepRefuse(e) == Fail(e.refused, "accepted")
Handle(e) == IF e.err # "" THEN {"raised"} ELSE
  CASE e.a = "extract" -> StepExtract(e) [] e.a = "initial" -> StepInitial(e) [] e.a = "state" -> StepState(e)
    [] e.a = "expval" -> StepExpval(e) [] e.a = "refuse" -> StepRefuse(e)
Init == tix \in 1..Len(Traces) /\ lix = 0
Next == /\ lix < Len(Traces[tix].ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET f == Handle(Traces[tix].ev[lix + 1]) IN
             IF f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<tix, lix>>
=============================================================================
