---------------------------- MODULE TraceOptions ----------------------------
(* Recorded reactions of the library to options, checked against Options.   *)
EXTENDS Options, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tix, lix
Ev == Traces[tix].ev
Fail(cond, name) == IF cond THEN {} ELSE {name}
OkPauli(s) == CASE s.o = "letter" -> OkLetter(s.x) [] s.o = "site" -> OkSite(s.x) [] s.o = "coeff" -> OkCoeff(s.x)
Wanted(e) ==
  CASE e.t = "monomial" -> Injective(e.sites)
    [] e.t = "pauli" -> (\A i \in 1..Len(e.set) : OkPauli(e.set[i]))
    [] e.t \in {"notpaulis", "notmonomials"} -> FALSE
    [] OTHER -> (\A j \in 1..Len(e.set) : Accepts(e.t, e.set[j].o, e.set[j].x))
Step(e) == IF Wanted(e) THEN Fail(~e.refused, "valid-refused")
           ELSE Fail(e.refused, "invalid-accepted") \cup Fail(~e.ran, "step-before-refusal")
Init == tix \in 1..Len(Traces) /\ lix = 0
Next ==
  /\ lix < Len(Ev) /\ lix' = lix + 1 /\ tix' = tix
  /\ LET e == Ev[lix + 1]
         f == IF e.err # "" THEN {"raised"} ELSE Step(e)
     IN  IF f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<tix, lix>>
=============================================================================
