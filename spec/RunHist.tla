------------------------------ MODULE RunHist ------------------------------
(***************************************************************************)
(* What a run returns, as a state machine.  The unitary is the sequence of *)
(* things done to it so far (layer numbers, kicks).  After every step the  *)
(* loop looks at the cost, may kick or stop, and appends to the histories; *)
(* the trigger is free.  Checked: every history has the same entries for   *)
(* the same step, entry by entry they describe one unitary, layers come in *)
(* turn, a kick is felt by the next step only.                             *)
(***************************************************************************)
EXTENDS OptLoopOps, FiniteSets
CONSTANTS NLAYERS, NSTEPS, PERTURB
VARIABLES uni, costs, states, unitaries, kicks, stop
hv == <<uni, costs, states, unitaries, kicks, stop>>
Of(u) == u                     \* cost and state are functions of the unitary
Init == uni = <<>> /\ costs = <<Of(<<>>)>> /\ states = <<Of(<<>>)>> /\ unitaries = <<<<>>>> /\ kicks = {} /\ stop = FALSE
done == Len(costs) - 1
Step(trigger) ==
  /\ ~stop /\ done < NSTEPS
  /\ LET after == Append(uni, LayerAt(done + 1, NLAYERS))
         kick == trigger /\ PERTURB
     IN  /\ costs' = Append(costs, Of(after)) /\ states' = Append(states, Of(after)) /\ unitaries' = Append(unitaries, after)
         /\ uni' = IF kick THEN Append(after, 0) ELSE after
         /\ kicks' = IF kick THEN kicks \cup {done} ELSE kicks
         /\ stop' = (trigger /\ ~PERTURB)
Next == \E trigger \in BOOLEAN : Step(trigger)
Spec == Init /\ [][Next]_hv /\ WF_hv(Next)
Aligned == Len(costs) = Len(states) /\ Len(states) = Len(unitaries) /\ \A i \in 1..Len(costs) : costs[i] = Of(unitaries[i]) /\ states[i] = Of(unitaries[i])
\* entry i+1 is entry i with the next layer on top, behind the kick if there was one
Chain == \A i \in 1..(Len(unitaries) - 1) :
  unitaries[i + 1] = (IF (i - 2) \in kicks THEN Append(unitaries[i], 0) ELSE unitaries[i]) \o <<LayerAt(i, NLAYERS)>>
InTurn == \A i \in 1..(Len(unitaries) - 1) : LET u == unitaries[i + 1] IN u[Len(u)] = ((i - 1) % NLAYERS) + 1
NoKickWithout == ~PERTURB => kicks = {}
Past == [][\A i \in 1..Len(unitaries) : unitaries'[i] = unitaries[i]]_hv
Finishes == <>(stop \/ done = NSTEPS)
=============================================================================
