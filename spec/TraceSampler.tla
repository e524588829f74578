---------------------------- MODULE TraceSampler ----------------------------
(* Recorded draws of the random-direction sampler, checked against Sampler. *)
EXTENDS SamplerOps, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tix, lix, used, left
Ev == Traces[tix].ev
Fail(cond, name) == IF cond THEN {} ELSE {name}
Init == tix \in 1..Len(Traces) /\ lix = 0 /\ used = {} /\ left = DirSet(Ev[1].su2)
Next ==
  /\ lix < Len(Ev)
  /\ lix' = lix + 1 /\ tix' = tix
  /\ LET e == Ev[lix + 1] IN
     IF e.err # "" THEN /\ PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> <<"raised">>]))
                        /\ UNCHANGED <<used, left>>
     ELSE LET f == Fail(DrawOK(used, left, e.su2, e.d, e.qs), "draw") \cup
                   Fail(Range(e.qs) \subseteq DrawFree(used), "qubit-reused") \cup
                   Fail(e.d \in DrawPool(used, left, e.su2), "direction-reused") \cup
                   Fail(Len(e.qs) = Len(e.d), "qubit-count") \cup
                   Fail(e.embedded, "operator")
          IN  /\ IF f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(f)]))
              /\ used' = DrawUsed(used, e.qs)
              /\ left' = DrawLeft(used, left, e.su2, e.d)
Spec == Init /\ [][Next]_<<tix, lix, used, left>>
=============================================================================
