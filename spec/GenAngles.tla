------------------------------ MODULE GenAngles ------------------------------
(* Scenarios: a grid of angles including the poles, the wrap-around and both *)
(* sides of the snapping distance.                                           *)
EXTENDS BlochAngles, Json
CONSTANT M
VARIABLES phi, theta
Near == {0, 1, 100, 90000, 97000, 99000, 101000, 105000, 107500, 112000, 200000}
Phis == {k * (TWOPI \div M) : k \in 0..M} \cup {TWOPI - x : x \in Near} \cup Near
Thetas == {k * (PI \div (M \div 2)) : k \in 0..(M \div 2)} \cup {x : x \in {1, 10, 1000, 100000}} \cup {PI - x : x \in {0, 1, 10, 1000, 100000}}
Init == phi \in Phis /\ theta \in Thetas /\ PrintT("@CASE@" \o ToJson([phi |-> phi, theta |-> theta]))
Next == UNCHANGED <<phi, theta>>
Spec == Init /\ [][Next]_<<phi, theta>>
\* on the grid the direction has unit length
Unit == LET d == Direction(phi, theta) IN Close(Mul(d[1], d[1]) + Mul(d[2], d[2]) + Mul(d[3], d[3]), S, 50)
=============================================================================
