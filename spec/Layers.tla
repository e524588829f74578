------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* What one step of each optimizer layer does to the state, in the Pauli   *)
(* picture of module Bloch.  Observables are sequences of                  *)
(* <<position, coefficient>>; a list of observables is a sequence of them. *)
(***************************************************************************)
EXTENDS Bloch, SamplerOps

DIM == Pow(2, N)

\* The catalogue of weight-k directions: positions, direction by direction
CatOf(dirs, k) == FlattenSeq([i \in 1..Len(dirs) |-> [j \in 1..Len(Combos(k)) |-> Pos(Lift(dirs[i], Combos(k)[j], N))]])
Cat(k) == IF k > N THEN <<>> ELSE CatOf(Dirs(k), k)
CAT1 == TLCEval(Cat(1))
CAT2 == TLCEval(Cat(2))
CAT3 == TLCEval(Cat(3))
CAT12 == TLCEval(CAT1 \o CAT2)
ALLOBS(obsl) == FlattenSeq(obsl)
Cost(r, obsl) == Expect(r, ALLOBS(obsl))
TotalGrad(r, p, obsl) == Grad(r, p, ALLOBS(obsl))

(***************************************************************************)
(* Direction-restricted layers.  Gradient components are taken at the      *)
(* state entering the layer; eta is the step size.                         *)
(***************************************************************************)
GenCoeff(r0, p, o, eta) == DivInt(Mul(eta, Grad(r0, p, o)), DIM)
Gens(r0, ps, o, eta) == [i \in 1..Len(ps) |-> <<ps[i], GenCoeff(r0, ps[i], o, eta)>>]

ApplyBlock(r, gens, trot) ==
  IF trot THEN FoldLeft(LAMBDA acc, g : Rot(acc, g[1], g[2]), r, gens) ELSE Flow(r, gens)

\* The step is decided by the state r entering the layer, and acts on the whole unitary: x is the
\* image of any input state under it (r itself for the input |0...0>).
ApplyBlocks(r, x, blocks, trot, eta, obsl) ==
  FoldLeft(LAMBDA acc, o :
     FoldLeft(LAMBDA acc2, b : ApplyBlock(acc2, Gens(r, b, o, eta), trot), acc, blocks),
     x, obsl)

Selected(k, dirs) == SelectSeq(Dirs(k), LAMBDA d : \E i \in 1..Len(dirs) : dirs[i] = d)
\* local layer: one block per qubit (pair)
LocalBlocks(k, dirs) ==
  [j \in 1..Len(Combos(k)) |-> LET sel == Selected(k, dirs) IN [i \in 1..Len(sel) |-> Pos(Lift(sel[i], Combos(k)[j], N))]]
LocalStep(r, x, k, dirs, trot, eta, obsl) == ApplyBlocks(r, x, LocalBlocks(k, dirs), trot, eta, obsl)
\* custom layer: a single block with all selected directions
CustomBlocks(dirs) ==
  << CatOf(Selected(1, dirs), 1) \o (IF N > 1 THEN CatOf(Selected(2, dirs), 2) ELSE <<>>) >>
CustomStep(r, x, dirs, trot, eta, obsl) == ApplyBlocks(r, x, CustomBlocks(dirs), trot, eta, obsl)

(***************************************************************************)
(* Exact optimizer: for each observable in turn, the full commutator flow  *)
(* at the current state (observables square to the identity).              *)
(***************************************************************************)
ExactGens(r, o, eta) ==
  [k \in 1..D4 |-> <<k, DivInt(Mul(eta,
      FoldLeft(LAMBDA acc, w : LET m == Prd(w[1], k) IN acc + Sgn(w[1], m) * Mul(w[2], r[m]), 0, o)), DIM)>>]
ExactGens0(r, o, eta) == SelectSeq(ExactGens(r, o, eta), LAMBDA g : g[2] # 0)
ExactStep(r, obsl, eta) == FoldLeft(LAMBDA acc, o : Flow(acc, ExactGens0(acc, o, eta)), r, obsl)
\* the same step acting on the image x of another input state
ExactStepOn(r, x, obsl, eta) ==
  FoldLeft(LAMBDA acc, o : LET gs == TLCEval(ExactGens0(acc[1], o, eta)) IN <<Flow(acc[1], gs), Flow(acc[2], gs)>>, <<r, x>>, obsl)[2]

(***************************************************************************)
(* Line search along exp(-i t/2 P): cost(t) = a + b cos t + c sin t.       *)
(***************************************************************************)
LineCoeffs(r, p, obsl) ==
  LET o == ALLOBS(obsl)
      anti(w) == Sgn(p, w) # 0
      a == Sum([j \in 1..Len(o) |-> IF anti(o[j][1]) THEN 0 ELSE Mul(o[j][2], r[o[j][1]])])
      b == Sum([j \in 1..Len(o) |-> IF anti(o[j][1]) THEN Mul(o[j][2], r[o[j][1]]) ELSE 0])
      c == Sum([j \in 1..Len(o) |-> LET m == Prd(p, o[j][1]) IN
                 IF anti(o[j][1]) THEN Sgn(p, m) * Mul(o[j][2], r[m]) ELSE 0])
  IN  <<a, b, c>>
\* Is `cost' the minimum of a + b cos t + c sin t?  Compared as squares of quarters to stay in range.
IsLineMin(r, p, obsl, cost, tol) ==
  LET abc == LineCoeffs(r, p, obsl)
      d == (abc[1] - cost) \div 4
  IN  /\ d >= -tol
      /\ Close(Sq(d), Sq(abc[2] \div 4) + Sq(abc[3] \div 4), tol)

\* At the minimum the slope is zero; this sees angles that the value of the cost does not show.
IsStationary(r1, p, obsl, tol) == Abs(TotalGrad(r1, p, obsl)) <= tol

MaxGrad(r, cands, obsl) ==
  FoldLeft(LAMBDA acc, p : Max2(acc, Abs(TotalGrad(r, p, obsl))), 0, cands)
Steepest(r, cands, obsl, tol) ==     \* set of positions with maximal gradient up to tol
  LET mx == MaxGrad(r, cands, obsl)
  IN  {p \in Range(cands) : Abs(TotalGrad(r, p, obsl)) >= mx - tol}
=============================================================================
