---------------------------- MODULE TraceFrames ----------------------------
(* Recorded calls: the contents of everything the caller holds after each.  *)
EXTENDS Frames, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tix, lix, store, memo
Ev == Traces[tix].ev
Seen(e) == [x \in {e.objs[i][1] : i \in 1..Len(e.objs)} |-> e.objs[CHOOSE i \in 1..Len(e.objs) : e.objs[i][1] = x][2]]
Init == tix \in 1..Len(Traces) /\ lix = 0 /\ store = <<>> /\ memo = <<>>
Handle(e) ==
  IF e.err # "" THEN [f |-> {"raised"}, s |-> store, m |-> memo]
  ELSE CASE e.a = "hold" -> [f |-> {}, s |-> Seen(e), m |-> memo]
         [] e.a = "call" -> [f |-> {"changed: " \o x : x \in Changed(store, Seen(e))}, s |-> AfterCall(Seen(e), e.name :> e.val), m |-> memo]
         [] e.a = "seeded" -> [f |-> (IF Consistent(memo, e.key, e.val) THEN {} ELSE {"not-repeatable"}) \cup {"changed: " \o x : x \in Changed(store, Seen(e))},
                               s |-> store, m |-> (e.key :> e.val) @@ memo]
Next == /\ lix < Len(Ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET r == Handle(Ev[lix + 1]) IN
             /\ store' = r.s /\ memo' = r.m
             /\ IF r.f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(r.f)]))
Spec == Init /\ [][Next]_<<tix, lix, store, memo>>
=============================================================================
