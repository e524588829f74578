----------------------------- MODULE OptLoopOps -----------------------------
(***************************************************************************)
(* The outer loop of the three optimizers: when a run stops, when it kicks *)
(* the unitary, which layer acts, and in which order results are returned. *)
(* costs[1] is the cost of the given circuit, costs[k+1] the one after     *)
(* step k (k counts from 1).                                               *)
(***************************************************************************)
EXTENDS Fixed

Kinds == {"ps", "exact", "approx"}
Warmup(kind) == CASE kind = "ps" -> 4 [] kind = "exact" -> 5 [] kind = "approx" -> 10     \* first step the rule is looked at
Back(kind) == IF kind = "approx" THEN 5 ELSE 1
REL(b) == Abs(b) \div 100000
NONE == -1                  \* no tolerance
\* distance between the newest and the reference cost after k steps, and the bound it is compared with
DistOf(costs, kind, k) == Abs(costs[k + 1] - costs[k + 1 - Back(kind)])
BoundOf(costs, kind, k, tol) == (IF tol > 15 * S THEN 15 * S ELSE tol) + REL(costs[k + 1 - Back(kind)])
\* TRUE when the rule certainly / possibly applies (the recorded numbers carry an error of about 1e-8)
Must(costs, kind, k, tol) == tol # NONE /\ k >= Warmup(kind) /\ DistOf(costs, kind, k) <= BoundOf(costs, kind, k, tol) - 6
May(costs, kind, k, tol)  == tol # NONE /\ k >= Warmup(kind) /\ DistOf(costs, kind, k) <= BoundOf(costs, kind, k, tol) + 6

\* layers are used in turn
LayerAt(k, nl) == ((k - 1) % nl) + 1

\* order of the results
Order(kind) == CASE kind = "ps" -> <<"cost", "state", "params">>
                 [] kind = "exact" -> <<"cost", "state", "pert", "unitary">>
                 [] kind = "approx" -> <<"cost", "state", "omega", "unitaries", "gates", "pert", "zass">>
Returned(kind, wanted) == SelectSeq(Order(kind), LAMBDA x : x = "cost" \/ x \in wanted)
=============================================================================
