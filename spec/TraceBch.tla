------------------------------ MODULE TraceBch ------------------------------
(* Calls of the symbolic Zassenhaus layer, checked against module Bch.      *)
EXTENDS Bch, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
TOL == 2000
VARIABLES tix, lix
Fail(cond, name) == IF cond THEN {} ELSE {name}
\* e.r: state entering, e.img: images of the unitary returned, e.x: the angles at which the circuit equals it
Handle(e) == IF e.err # "" THEN {"raised"} ELSE
  Fail(\A j \in 1..(2 * N) : CloseVec(e.img[j], ApplyCircuit(Probe(j), Fitted(e.x)), TOL), "circuit") \cup
  Fail(Optimal(e.x, e.r, e.obs, e.eta), "fit")
Init == tix \in 1..Len(Traces) /\ lix = 0
Next == /\ lix < Len(Traces[tix].ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET f == Handle(Traces[tix].ev[lix + 1]) IN
             IF f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<tix, lix>>
=============================================================================
