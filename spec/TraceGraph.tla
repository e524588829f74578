----------------------------- MODULE TraceGraph -----------------------------
(* Recorded calls of the colouring heuristic and of the commuting-set       *)
(* helper, checked against ColorOps.                                        *)
EXTENDS ColorOps, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tix, lix
Ev == Traces[tix].ev
Fail(cond, name) == IF cond THEN {} ELSE {name}
EdgeSet(es) == {Qubits(es[i]) : i \in 1..Len(es)}
StepColor(e) ==
  LET E == EdgeSet(e.edges)
      got == {Qubits(SubSeq(e.cols[i], 1, 2)) : i \in 1..Len(e.cols)}
      colf == [f \in got |-> LET i == CHOOSE i \in 1..Len(e.cols) : Qubits(SubSeq(e.cols[i], 1, 2)) = f IN e.cols[i][3]]
  IN  IF got # E \/ Len(e.cols) # Cardinality(E) THEN {"edges-changed"}
      ELSE Fail(InRange(E, colf, e.D), "colour-range") \cup
           Fail(e.ok = Proper(E, colf), "untruthful") \cup
           Fail(e.D >= 2 * MaxDegree(E) - 1 => Proper(E, colf) /\ e.ok, "enough-colours") \cup
           Fail(e.same, "graph-changed")
StepCommute(e) ==
  Fail(SubList(e.res, e.edges), "not-a-sublist") \cup
  Fail(Disjoint(e.res), "overlap") \cup
  Fail(e.edges # <<>> => e.res # <<>>, "empty") \cup
  Fail(Disjoint(e.edges) => e.res = e.edges, "disjoint-changed") \cup
  Fail(e.same, "input-changed")
Init == tix \in 1..Len(Traces) /\ lix = 0
Next ==
  /\ lix < Len(Ev) /\ lix' = lix + 1 /\ tix' = tix
  /\ LET e == Ev[lix + 1]
         f == IF e.err # "" THEN {"raised"} ELSE IF e.a = "color" THEN StepColor(e) ELSE StepCommute(e)
     IN  IF f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<tix, lix>>
=============================================================================
