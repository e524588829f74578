------------------------------ MODULE GenEmbed ------------------------------
(* Scenarios: every list of distinct wires of registers up to MAXN qubits. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANT MAXN
VARIABLES n, ws
Init == n \in 1..MAXN /\ ws = <<>>
Next == \E w \in 0..(n-1) : /\ \A j \in 1..Len(ws) : ws[j] # w
                            /\ ws' = Append(ws, w) /\ n' = n
                            /\ PrintT("@CASE@" \o ToJson([n |-> n, ws |-> ws']))
Spec == Init /\ [][Next]_<<n, ws>>
\* no wire twice, all in the register
Distinct == Cardinality(Range(ws)) = Len(ws) /\ Range(ws) \subseteq 0..(n-1)
=============================================================================
