------------------------------ MODULE Descent ------------------------------
(***************************************************************************)
(* Gradient descent on the parameters of a circuit.  A gate carries, per   *)
(* gate angle, args[k] = [i, f, c]: the angle is f/2 * theta[i] (f an      *)
(* integer), or the literal c if i = 0.  Derivatives are propagated        *)
(* forward through the circuit (tangent vectors in the Bloch picture).     *)
(***************************************************************************)
EXTENDS Circuits
FOURPI == 1256637061
\* gate angles matter modulo 4 pi (controlled rotations), taken step by step to stay in range
Wrap4(x) == LET y == x % FOURPI IN IF y > TWOPI THEN y - FOURPI ELSE y
Times(f, x) == FoldLeft(LAMBDA acc, j : Wrap4(IF f < 0 THEN acc - x ELSE acc + x), 0, [j \in 1..Abs(f) |-> j])
Angle(a, th) == IF a.i = 0 THEN a.c ELSE Times(a.f, th[a.i] \div 2)
Bind(g, th) == [g EXCEPT !.ps = [k \in 1..Len(g.args) |-> Angle(g.args[k], th)]]
\* d angle / d theta_i for every angle of the gate
Slope(g, i) == [g EXCEPT !.ps = [k \in 1..Len(g.args) |-> IF g.args[k].i = i THEN g.args[k].f * HALF ELSE 0]]
Depends(g, i) == \E k \in 1..Len(g.args) : g.args[k].i = i
\* the circuit as a sequence of rotations <<position, angle, slope w.r.t. theta_i>>
Unrolled(gs, th, i) ==
  FlattenSeq([j \in 1..Len(gs) |->
     LET rs == GateRots(Bind(gs[j], th))
         ss == IF Depends(gs[j], i) THEN GateRots(Slope(gs[j], i)) ELSE rs
     IN  [m \in 1..Len(rs) |-> <<rs[m][1], rs[m][2], IF Depends(gs[j], i) THEN ss[m][2] ELSE 0>>]])
State(gs, th) == FoldLeft(LAMBDA r, x : Rot(r, x[1], x[2] \div 2), Zero, Unrolled(gs, th, 0))
ScaleVec(v, c) == TLCEval([k \in 1..D4 |-> Mul(v[k], c)])
AddVec(a, b) == TLCEval([k \in 1..D4 |-> a[k] + b[k]])
Tangent(gs, th, i) ==
  LET step(acc, x) ==
        LET r1 == Rot(acc[1], x[1], x[2] \div 2)
            d1 == Rot(acc[2], x[1], x[2] \div 2)
        IN  <<r1, IF x[3] = 0 THEN d1 ELSE AddVec(d1, ScaleVec(LinStep(r1, <<<<x[1], HALF>>>>), x[3]))>>
  IN  FoldLeft(step, <<Zero, [k \in 1..D4 |-> 0]>>, Unrolled(gs, th, i))[2]
CostAt(r, obs) == Sum([j \in 1..Len(obs) |-> Expect(r, obs[j])])
Gradient(gs, th, obs) == [i \in 1..Len(th) |-> IF \E j \in 1..Len(gs) : Depends(gs[j], i) THEN CostAt(Tangent(gs, th, i), obs) ELSE 0]
DescentStep(gs, th, obs, eta) == LET g == Gradient(gs, th, obs) IN [i \in 1..Len(th) |-> th[i] - Mul(eta, g[i])]
=============================================================================
