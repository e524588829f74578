------------------------------ MODULE Sampler ------------------------------
(***************************************************************************)
(* Random directions without replacement, as a state machine.  Checked     *)
(* exhaustively for small N: no draw ever gets stuck, no qubit returns     *)
(* before all have been used, no direction before the pool is refilled.    *)
(***************************************************************************)
EXTENDS SamplerOps
CONSTANT SU2
VARIABLES used, left, last, uses, round
vars == <<used, left, last, uses, round>>

Tuples == {<<a>> : a \in Sites} \cup {<<a, b>> \in Sites \X Sites : a # b}
\* uses[q]: how often q was drawn since the start, modulo round bookkeeping: q's uses minus the completed rounds
Init == used = {} /\ left = DirSet(SU2) /\ last = <<>> /\ uses = [q \in Sites |-> 0] /\ round = 0
Draw(d, qs) ==
  /\ DrawOK(used, left, SU2, d, qs)
  /\ used' = DrawUsed(used, qs)
  /\ left' = DrawLeft(used, left, SU2, d)
  /\ last' = <<d, qs>>
  /\ LET base == IF used = Sites THEN [q \in Sites |-> 0] ELSE uses IN
       uses' = [q \in Sites |-> IF \E i \in 1..Len(qs) : qs[i] = q THEN base[q] + 1 ELSE base[q]]
  /\ round' = 1 - round
Next == \E d \in DirSet(TRUE) : \E qs \in Tuples : Draw(d, qs)
Spec == Init /\ [][Next]_vars
View == <<used, left, uses>>

TypeOK == used \subseteq Sites /\ left \subseteq DirSet(TRUE)
\* within a round no qubit is used twice, and the used set is exactly the qubits drawn
RoundOK == \A q \in Sites : uses[q] = (IF q \in used THEN 1 ELSE 0)
NeverStuck == \E d \in DirSet(TRUE) : \E qs \in Tuples : DrawOK(used, left, SU2, d, qs)
\* two-qubit directions are never refilled before the whole pool is empty
PoolShrinks == [][ \A d \in DirSet(TRUE) : (d \in left' /\ d \notin left) => (left = {} \/ Len(d) = 1) ]_vars
=============================================================================
