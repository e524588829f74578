------------------------------- MODULE ZassMC -------------------------------
(***************************************************************************)
(* The Zassenhaus layer as a state machine over two-qubit words on N       *)
(* qubits: a line search may pick any word, a commutator step any word     *)
(* that fits the previous gate and whose three-qubit partner has a         *)
(* gradient, none if there is none.  Which partners have a gradient is     *)
(* chosen freely in every step.                                            *)
(***************************************************************************)
EXTENDS ZassOps, Paulis, FiniteSets, SequencesExt
CONSTANTS NQ, MAXRATIO, CALLS
VARIABLES ratio, phase, cnt, gate, calls, log
zv == <<ratio, phase, cnt, gate, calls, log>>
Two == {w \in [1..NQ -> 0..3] : Cardinality({i \in 1..NQ : w[i] # 0}) = 2}
Supp(w) == {i \in 1..NQ : w[i] # 0}
Fits(a, b) == Cardinality(Supp(a) \cap Supp(b)) = 1 /\ SgnOf(a, b) # 0
Init == ratio \in (1..MAXRATIO) \X (1..MAXRATIO) /\ phase = "su4" /\ cnt = 0 /\ gate = [i \in 1..NQ |-> 0] /\ calls = 0 /\ log = <<>>
Step(g, kind) == /\ calls < CALLS /\ calls' = calls + 1 /\ ratio' = ratio
                 /\ LET nx == ZAfter(ratio, phase, cnt) IN phase' = nx.phase /\ cnt' = nx.cnt
                 /\ gate' = g /\ log' = Append(log, kind)
LineSearch == phase = "su4" /\ \E w \in Two : Step(w, "su4")
Commutator == phase = "su8" /\ \E w \in {v \in Two : Fits(gate, v)} : Step(w, "su8")
NoCandidate == phase = "su8" /\ Step(gate, "su8")
Next == LineSearch \/ Commutator \/ NoCandidate
Spec == Init /\ [][Next]_zv /\ WF_zv(Next)
\* the alternation is the closed form, whatever was found
Alternates == phase = ZPhaseAt(ratio, calls + 1) /\ \A i \in 1..Len(log) : log[i] = ZPhaseAt(ratio, i)
\* a commutator step always has a gate before it, and a line search comes first
Starts == (phase = "su8" => gate \in Two) /\ (calls > 0 => log[1] = "su4")
\* every gate has a word that fits it (three or more qubits), the commutator acts on three qubits
Partner == gate \in Two => \E v \in Two : Fits(gate, v) /\ Cardinality(Supp(WMul(gate, v))) = 3
NeverStuck == calls < CALLS => ENABLED Next
Finishes == <>(calls = CALLS)
View == <<ratio, phase, cnt, gate, calls>>
=============================================================================
