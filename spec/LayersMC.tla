------------------------------ MODULE LayersMC ------------------------------
(***************************************************************************)
(* The layers as a state machine.  From a grid of states every layer may   *)
(* act, in any order, DEPTH times.  Checked: states stay pure, the         *)
(* gradient is the derivative of the cost, a cost along a direction is a   *)
(* sinusoid, small steps and line searches never raise the cost, a line    *)
(* search ends where the gradient along its direction vanishes and the     *)
(* cost is lowest.                                                         *)
(***************************************************************************)
\* the variables must not share names with bound variables of the other modules: TLC would then re-evaluate their constants
EXTENDS Layers
CONSTANTS GRID, DEPTH, ETA
VARIABLES st, cnt, ob, act
vars == <<st, cnt, ob, act>>
TOL == 3000
One(w) == <<<<Pos(w), S>>>>
\* lists of observables on N qubits
ObsLists ==
  IF N = 1 THEN { <<One(<<3>>)>>, <<One(<<1>>), One(<<3>>)>>, << <<<<Pos(<<1>>), 60000000>>, <<Pos(<<3>>), 80000000>>>>, One(<<2>>)>> }
  ELSE LET l(a, q) == Lift(a, q, N) IN
       { <<One(l(<<3, 3>>, <<0, 1>>)), One(l(<<1>>, <<0>>)), One(l(<<1>>, <<1>>))>>, <<One(l(<<2>>, <<1>>))>>,
         <<One(l(<<1, 3>>, <<0, 1>>)), One(l(<<3, 2>>, <<0, 1>>))>> }
\* angles of the grid: multiples of a full turn / GRID, plus an odd one
Angles == {(j * (TWOPI \div GRID)) \div 2 : j \in 0..(GRID - 1)} \cup {41000000}
Words12 == {CAT12[i] : i \in 1..Len(CAT12)}
Turn(gs) == FoldLeft(LAMBDA acc, g : Rot(acc, g[1], g[2]), Zero, gs)
Starts ==
  IF N = 1 THEN {Turn(<<<<Pos(<<2>>), a>>, <<Pos(<<3>>), b>>>>) : a \in Angles, b \in Angles}
  ELSE {Turn(<<<<Pos(Lift(<<2>>, <<0>>, N)), a>>, <<Pos(Lift(<<1, 1>>, <<0, 1>>, N)), b>>, <<Pos(Lift(<<3>>, <<1>>, N)), 30000000>>>>) : a \in Angles, b \in Angles}
Init == st \in Starts /\ cnt = 0 /\ ob \in ObsLists /\ act = [a |-> "start", p |-> 0]
\* square root and quotient by bisection, for numbers in [0, 4]
RECURSIVE Bisect(_, _, _)
Bisect(lo, hi, x) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF Mul(m, m) <= x THEN Bisect(m, hi, x) ELSE Bisect(lo, m, x)
Sqrt(x) == IF x <= 0 THEN 0 ELSE Bisect(0, 4 * S, x)
RECURSIVE Quot(_, _, _, _)
Quot(lo, hi, a, b) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF Mul(m, b) <= a THEN Quot(m, hi, a, b) ELSE Quot(lo, m, a, b)
Div(a, b) == IF a >= 0 THEN Quot(0, 2 * S, a, b) ELSE -Quot(0, 2 * S, -a, b)       \* |a| <= b
Do(name, p, x) == cnt < DEPTH /\ st' = x /\ cnt' = cnt + 1 /\ act' = [a |-> name, p |-> p] /\ ob' = ob
Local == \E kk \in 1..N, trot \in BOOLEAN : Do("local", 0, LocalStep(st, st, kk, Dirs(kk), trot, ETA, ob))
Custom == \E trot \in BOOLEAN : Do("custom", 0, CustomStep(st, st, Dirs(1) \o (IF N > 1 THEN Dirs(2) ELSE <<>>), trot, ETA, ob))
Exact == Do("exact", 0, ExactStep(st, ob, ETA))
Stoch == \E p \in Words12 : Do("stoch", p, Rot(st, p, Sum([j \in 1..Len(ob) |-> GenCoeff(st, p, ob[j], ETA)])))
Line == \E p \in Steepest(st, CAT12, ob, TOL) :
          LET abc == LineCoeffs(st, p, ob)
              m == Sqrt(Sq(abc[2]) + Sq(abc[3]))
          IN  Do("line", p, IF m < 100000 THEN st ELSE RotCS(st, p, -Div(abc[2], m), -Div(abc[3], m)))
Next == Local \/ Custom \/ Exact \/ Stoch \/ Line
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- invariants
Pure == Close(st[1], S, 10) /\ Close(Sum([j \in 1..D4 |-> Sq(st[j])]), DIM * S, TOL)
\* values are bound by quantifiers over singletons so that TLC evaluates them once
\* cost along exp(-i t/2 P) is a + b cos t + c sin t
Sinusoid == cnt = 0 => \A p \in Words12 : \A abc \in {LineCoeffs(st, p, ob)} : \A t \in Angles : \A cs \in {CosSin(t)} : \A x \in {Rot(st, p, t \div 2)} :
  Close(Cost(x, ob), abc[1] + Mul(abc[2], cs[1]) + Mul(abc[3], cs[2]), TOL)
\* the gradient is minus the derivative along exp(-i t P), by the parameter-shift rule, and 2c
Derivative == \A p \in Words12 : \A g \in {TotalGrad(st, p, ob)} : \A x \in {Rot(st, p, -(PI \div 4))}, y \in {Rot(st, p, PI \div 4)}, abc \in {LineCoeffs(st, p, ob)} :
  Close(Cost(x, ob) - Cost(y, ob), g, TOL) /\ Close(-2 * abc[3], g, TOL)
\* a flow along one word is a rotation, along commuting words a product of rotations
FlowRot == cnt = 0 => \A p \in Words12 : \A x \in {Flow(st, <<<<p, 20000000>>>>)}, y \in {Rot(st, p, 20000000)} : CloseVec(x, y, TOL)
FlowProduct == cnt = 0 => \A p, q \in Words12 : Sgn(p, q) = 0 /\ p < q =>
  \A x \in {Flow(st, <<<<p, 20000000>>, <<q, -10000000>>>>)}, z \in {Rot(st, p, 20000000)} : \A y \in {Rot(z, q, -10000000)} : CloseVec(x, y, TOL)
\* where the last line search ended
Optimum == act.a = "line" => Close(TotalGrad(st, act.p, ob), 0, 20000) /\ \A t \in Angles : \A x \in {Rot(st, act.p, t \div 2)} : Cost(x, ob) >= Cost(st, ob) - TOL
\* ------------------------------------------------------- action properties
Descent == [][Cost(st', ob) <= Cost(st, ob) + TOL]_vars
LineMin == [][act'.a = "line" => IsLineMin(st, act'.p, ob, Cost(st', ob), TOL)]_vars
=============================================================================
