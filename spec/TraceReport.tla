---------------------------- MODULE TraceReport ----------------------------
(* Directions reported and printed by layers, before and after use.         *)
EXTENDS Report, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tix, lix
Fail(cond, name) == IF cond THEN {} ELSE {name}
Handle(e) == IF e.err # "" THEN {"raised"} ELSE
  Fail(e.rep = Expected(e.kind, e.n, e.sel, e.su2, e.su4), "reported") \cup
  Fail(e.shown = IF Prints(e.kind) THEN Shown(e.kind, e.n, e.sel, e.su2, e.su4) ELSE <<>>, "printed")
Init == tix \in 1..Len(Traces) /\ lix = 0
Next == /\ lix < Len(Traces[tix].ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET f == Handle(Traces[tix].ev[lix + 1]) IN IF f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<tix, lix>>
=============================================================================
