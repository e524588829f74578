---------------------------- MODULE BlochAngles ----------------------------
(* Bloch angles (phi azimuth, theta polar) and Bloch vectors, fixed point.  *)
EXTENDS Fixed
Direction(phi, theta) == LET p == CosSin(phi) q == CosSin(theta) IN <<Mul(q[2], p[1]), Mul(q[2], p[2]), q[1]>>
Close3(a, b, tol) == Close(a[1], b[1], tol) /\ Close(a[2], b[2], tol) /\ Close(a[3], b[3], tol)
SNAP == 106000            \* just below 1e-3 + 2 pi 1e-5
\* may the pair of angles be reported for the pure state with Bloch vector v?
InRange(phi, theta) == phi >= 0 /\ phi < TWOPI + 2 /\ theta >= 0 /\ theta <= PI + 2
Plain(v, phi, theta, tol) == Close3(Direction(phi, theta), v, tol)
\* azimuth a little below a full turn: x > 0, -1.1e-3 sin <= y < 0, reported as 0
SnapMay(v, phi, theta, tol) == /\ phi = 0 /\ v[1] >= 0 /\ v[2] <= tol /\ -(v[2]) <= Mul(v[1], SNAP + 3000) + tol
                               /\ Close(Cos(theta), v[3], tol) /\ Close(Sin(theta), v[1], tol + Mul(v[1], 1000))
SnapMust(v) == v[1] > 1000000 /\ v[2] < -2000 /\ -(v[2]) < Mul(v[1], 98000)
=============================================================================
