-------------------------------- MODULE Bch --------------------------------
(***************************************************************************)
(* The fit of a small circuit to a gradient step.  The circuit is          *)
(* exp(-i x1 P1) exp(-i x2 P2) ..., its generator to second order          *)
(*    -i sum_j x_j P_j + 1/2 sum_{j<k} [-i x_j P_j, -i x_k P_k].           *)
(* The angles have to minimise the squared distance between the generator  *)
(* and the step eta * gradient, word by word.                              *)
(***************************************************************************)
EXTENDS Circuits
\* generators of the circuit of the symbolic layer: X on qubit 0, X on qubit 1, ZZ on both
Gens == <<Pos(Lift(<<1>>, <<0>>, N)), Pos(Lift(<<1>>, <<1>>, N)), Pos(Lift(<<3, 3>>, <<0, 1>>, N))>>
Pairs == {p \in (1..3) \X (1..3) : p[1] < p[2] /\ Sgn(Gens[p[1]], Gens[p[2]]) # 0}
TermWords == {Gens[j] : j \in 1..3} \cup {Prd(Gens[p[1]], Gens[p[2]]) : p \in Pairs}
\* imaginary part of the coefficient of a word:  [P, Q] = 2 i sgn PQ
Coef(w, x) ==
  - Sum([j \in 1..3 |-> IF Gens[j] = w THEN x[j] ELSE 0])
  - Sum([k \in 1..9 |-> LET p == <<((k - 1) \div 3) + 1, ((k - 1) % 3) + 1>> IN
           IF p \in Pairs /\ Prd(Gens[p[1]], Gens[p[2]]) = w
           THEN Sgn(Gens[p[1]], Gens[p[2]]) * Mul(x[p[1]], x[p[2]]) ELSE 0])
GradAll(r, w, obs) == Sum([i \in 1..Len(obs) |-> Grad(r, w, obs[i])])
Misfit(x, r, obs, eta) ==
  LET ws == SetToSeq(TermWords) IN Sum([i \in 1..Len(ws) |-> Sq(Coef(ws[i], x) - Mul(eta, GradAll(r, ws[i], obs)))])
H == 10000000       \* 0.1
Moved(x, j, d) == [x EXCEPT ![j] = @ + d]
\* central differences vanish and no neighbour is better
Optimal(x, r, obs, eta) ==
  LET f == Misfit(x, r, obs, eta) IN
  \A j \in 1..3 : LET a == Misfit(Moved(x, j, H), r, obs, eta) b == Misfit(Moved(x, j, -H), r, obs, eta) IN
     /\ Close(a, b, 150000) /\ a + 10000 >= f /\ b + 10000 >= f
Fitted(x) == <<[g |-> "Hadamard", ws |-> <<0>>, ps |-> <<>>, inv |-> FALSE], [g |-> "Hadamard", ws |-> <<1>>, ps |-> <<>>, inv |-> FALSE],
               [g |-> "RX", ws |-> <<0>>, ps |-> <<x[1]>>, inv |-> FALSE], [g |-> "RX", ws |-> <<1>>, ps |-> <<x[2]>>, inv |-> FALSE],
               [g |-> "MultiRZ", ws |-> <<0, 1>>, ps |-> <<x[3]>>, inv |-> FALSE]>>
=============================================================================
