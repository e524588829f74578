------------------------------ MODULE OptLoop ------------------------------
(***************************************************************************)
(* The loop as a state machine over every sequence of cost levels.         *)
(***************************************************************************)
EXTENDS OptLoopOps, FiniteSets, Json
CONSTANTS KIND, NSTEPS, LEVELS, PERTURB, TOLV, EMIT
VARIABLES costs, pert, done
\* cost of a level: levels 0 and 1 are closer than the tolerance, 2 is far away from both, 3 is close to 2 only
Val(v) == CASE v = 0 -> 30000000 [] v = 1 -> 30600000 [] v = 2 -> 80000000 [] v = 3 -> 31400000
k == Len(costs) - 1
TriggersAt(j) == /\ TOLV # NONE /\ j >= Warmup(KIND) /\ DistOf(costs, KIND, j) <= BoundOf(costs, KIND, j, TOLV)
Init == costs \in {<<Val(v)>> : v \in LEVELS} /\ pert = {} /\ done = FALSE
Step(c) == /\ ~done /\ k < NSTEPS
           /\ costs' = Append(costs, c)
           /\ LET trig == TOLV # NONE /\ k + 1 >= Warmup(KIND) /\ DistOf(costs', KIND, k + 1) <= BoundOf(costs', KIND, k + 1, TOLV) IN
              /\ pert' = IF trig /\ PERTURB THEN pert \cup {k} ELSE pert      \* step indices are recorded from 0
              /\ done' = ((trig /\ ~PERTURB) \/ k + 1 = NSTEPS)
Emit == done /\ EMIT /\ PrintT("@CASE@" \o ToJson([costs |-> costs])) /\ UNCHANGED <<costs, pert, done>>
Next == (\E v \in LEVELS : Step(Val(v))) \/ Emit
Spec == Init /\ [][Next]_<<costs, pert, done>> /\ WF_<<costs, pert, done>>(\E v \in LEVELS : Step(Val(v)))
\* a run ends early exactly at the first trigger
EndsEarly == done /\ k < NSTEPS => /\ ~PERTURB /\ TriggersAt(k) /\ \A j \in 1..(k-1) : ~TriggersAt(j)
NotLate == ~PERTURB => \A j \in 1..(k-1) : ~TriggersAt(j)
Kicks == pert = IF PERTURB THEN {j - 1 : j \in {i \in 1..k : TriggersAt(i)}} ELSE {}
NoTol == TOLV = NONE => (done => k = NSTEPS) /\ pert = {}
Length == k <= NSTEPS /\ (PERTURB /\ done => k = NSTEPS)
Terminates == <>done
=============================================================================
