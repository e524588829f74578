---------------------------- MODULE DescentLaws ----------------------------
(***************************************************************************)
(* The gradient of module Descent is the parameter-shift gradient: for     *)
(* every circuit of up to three rotations in two parameters, shared,       *)
(* scaled or negated, the derivative equals the sum over the occurrences   *)
(* of slope * (C(angle + pi/2) - C(angle - pi/2)) / 2.  And a small step   *)
(* against it does not raise the cost.                                     *)
(***************************************************************************)
EXTENDS Descent
CONSTANTS LEN, GRID
VARIABLES circ, par
Occ(i, f) == <<[i |-> i, f |-> f, c |-> 0]>>
Gate1(nm, q, i, f) == [g |-> nm, ws |-> <<q>>, ps |-> <<0>>, inv |-> FALSE, args |-> Occ(i, f)]
Gates == {Gate1(nm, q, i, f) : nm \in {"RX", "RY", "RZ"}, q \in Sites, i \in {1, 2}, f \in {2, -2, 1, 4}} \cup
         (IF N > 1 THEN {[g |-> "CNOT", ws |-> <<0, 1>>, ps |-> <<>>, inv |-> FALSE, args |-> <<>>],
                         [g |-> "MultiRZ", ws |-> <<0, 1>>, ps |-> <<0>>, inv |-> FALSE, args |-> Occ(1, 2)]} ELSE {})
Small == IF N = 1 THEN Gates ELSE {x \in Gates : x.g \in {"CNOT", "MultiRZ"} \/ x.args[1].f \in {2, -2}}
Values == {j * (TWOPI \div GRID) + 35000000 : j \in 0..(GRID - 1)}
Obs == << <<<<Pos(Lift(<<3>>, <<0>>, N)), S>>>>, IF N = 1 THEN <<<<Pos(<<1>>), 50000000>>>> ELSE <<<<Pos(Lift(<<1, 3>>, <<0, 1>>, N)), S>>>> >>
Init == circ \in [1..LEN -> Small] /\ par \in Values \X {20000000}
Next == UNCHANGED <<circ, par>>
Spec == Init /\ [][Next]_<<circ, par>>
\* the circuit with the angle of its j-th gate replaced by a literal
Lit(gs, j, a) == [gs EXCEPT ![j].args = <<[i |-> 0, f |-> 0, c |-> a]>>]
CostLit(gs, j, a) == CostAt(State(Lit(gs, j, a), par), Obs)
Uses(i) == {j \in 1..LEN : circ[j].args # <<>> /\ circ[j].args[1].i = i}
Shifted(i) == LET us == SetToSeq(Uses(i)) IN
  Sum([u \in 1..Len(us) |-> LET j == us[u] a == Angle(circ[j].args[1], par) IN
     (circ[j].args[1].f * ((CostLit(circ, j, a + PI \div 2) - CostLit(circ, j, a - PI \div 2)) \div 2)) \div 2])
ShiftRule == \A g \in {Gradient(circ, par, Obs)} : \A i \in 1..2 : \A x \in {Shifted(i)} : Close(g[i], x, 4000)
Downhill == \A p \in {DescentStep(circ, par, Obs, 1000000)} : CostAt(State(circ, p), Obs) <= CostAt(State(circ, par), Obs) + 4000
=============================================================================
