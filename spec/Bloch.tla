-------------------------------- MODULE Bloch --------------------------------
(***************************************************************************)
(* Quantum states and steps in the Pauli (Bloch) picture.                  *)
(*                                                                         *)
(* A state of N qubits is its vector r of Pauli expectation values,        *)
(* r[k+1] = <word k>, in fixed point.  It determines the state up to a     *)
(* global phase.  Unitary steps are rotations of this vector:              *)
(*   exp(-i t P):   r'_R = cos(2t) r_R + sin(2t) sgn(P, PR) r_PR           *)
(*                  for R anticommuting with P,  r'_R = r_R otherwise      *)
(*   exp(-i G), G = sum_k g_k P_k:  r' = exp(L) r with                     *)
(*                  (L r)_R = sum_k 2 g_k sgn(P_k, P_k R) r_{P_k R}        *)
(***************************************************************************)
EXTENDS Fixed, Paulis, Register

D4 == Pow(4, N)
Idx == 0..(D4 - 1)
IdxSeq == [k \in 1..D4 |-> k]      \* 1-based positions

W == TLCEval([k \in 1..D4 |-> WordOf(N, k - 1)])
\* Position of the product, and sign, from tables over words of up to three letters: a longer word is
\* split into its last three letters and the rest.
TW == IF N <= 3 THEN N ELSE 3
TD == Pow(4, TW)
TABW == TLCEval([k \in 1..TD |-> WordOf(TW, k - 1)])
TABP == TLCEval([p \in 1..TD |-> TLCEval([q \in 1..TD |-> IdxOf(WMul(TABW[p], TABW[q])) + 1])])
TABPH == TLCEval([p \in 1..TD |-> TLCEval([q \in 1..TD |-> WPhase(TABW[p], TABW[q])])])
PhSgn == <<0, 1, 0, -1>>           \* sign of a product with phase i^0, i^1, i^2, i^3
Prd(p, q) == IF N <= 3 THEN TABP[p][q]
             ELSE (TABP[((p - 1) \div TD) + 1][((q - 1) \div TD) + 1] - 1) * TD + TABP[((p - 1) % TD) + 1][((q - 1) % TD) + 1]
Sgn(p, q) == PhSgn[1 + (IF N <= 3 THEN TABPH[p][q]
             ELSE (TABPH[((p - 1) \div TD) + 1][((q - 1) \div TD) + 1] + TABPH[((p - 1) % TD) + 1][((q - 1) % TD) + 1]) % 4)]

Pos(w) == IdxOf(w) + 1

\* one rotation exp(-i t P), P given by position
RotCS(r, p, c, s) ==
  TLCEval([k \in 1..D4 |->
     LET m == Prd(p, k) IN
     IF Sgn(p, m) = 0 THEN r[k]
     ELSE Mul(c, r[k]) + Sgn(p, m) * Mul(s, r[m])])
Rot(r, p, t) == LET cs == CosSin(2 * t) IN RotCS(r, p, cs[1], cs[2])

\* L r for the generator gs = sequence of <<position, coefficient>>
LinStep(r, gs) ==
  TLCEval([k \in 1..D4 |->
     2 * FoldLeft(LAMBDA acc, g :
            LET m == Prd(g[1], k)  sg == Sgn(g[1], m) IN
            IF sg = 0 THEN acc ELSE acc + sg * Mul(g[2], r[m]), 0, gs)])

RECURSIVE ExpTail(_, _, _, _)
ExpTail(acc, term, gs, k) ==
  LET raw == LinStep(term, gs)
      nt  == TLCEval([j \in 1..D4 |-> DivInt(raw[j], k)])
      na  == TLCEval([j \in 1..D4 |-> acc[j] + nt[j]])
  IN  IF k >= 24 \/ \A j \in 1..D4 : Abs(nt[j]) <= 1 THEN na
      ELSE ExpTail(na, nt, gs, k + 1)

\* exp(-i sum g_k P_k) applied to r; a long flow is two halves, so that no term of the series leaves the range
RECURSIVE Flow(_, _)
Flow(r, gs) ==
  IF gs = <<>> THEN r
  ELSE IF Sum([i \in 1..Len(gs) |-> Abs(gs[i][2]) \div 64]) <= S \div 64 THEN ExpTail(r, r, gs, 1)
  ELSE LET half == TLCEval([i \in 1..Len(gs) |-> <<gs[i][1], gs[i][2] \div 2>>])
           rest == TLCEval([i \in 1..Len(gs) |-> <<gs[i][1], gs[i][2] - half[i][2]>>])
       IN  Flow(Flow(r, half), rest)

\* An observable is a sequence of <<position, coefficient>> pairs.
Expect(r, obs) == Sum([j \in 1..Len(obs) |-> Mul(obs[j][2], r[obs[j][1]])])
\* Im <[P, O]>
Grad(r, p, obs) ==
  2 * FoldLeft(LAMBDA acc, o : acc + Sgn(p, o[1]) * Mul(o[2], r[Prd(p, o[1])]), 0, obs)

\* |0...0>: expectation 1 on every word over {I, Z}
Zero == TLCEval([k \in 1..D4 |-> IF \A q \in 1..N : W[k][q] \in {0, 3} THEN S ELSE 0])
CloseVec(a, b, tol) == \A k \in 1..D4 : Close(a[k], b[k], tol)
=============================================================================
