------------------------------- MODULE Embed -------------------------------
(***************************************************************************)
(* Embedding of a matrix on a list of wires into a register of n qubits.   *)
(* Basis states are numbers 0 .. 2^n - 1, wire 0 being the most            *)
(* significant bit.  A matrix is a pair of sequences of rows (real and     *)
(* imaginary parts); entries are integers.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

P2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024>>
Two(k) == IF k = 0 THEN 1 ELSE P2[k]
Bit(x, w, n) == (x \div Two(n - 1 - w)) % 2
\* the bits of x on the wires ws, first wire most significant
Sub(x, ws, n) == FoldLeft(LAMBDA acc, w : 2 * acc + Bit(x, w, n), 0, ws)
Rest(n, ws) == {w \in 0..(n-1) : \A j \in 1..Len(ws) : ws[j] # w}
\* entry (x, y) of the embedding of m
EntryOf(m, ws, n, x, y) ==
  IF \A w \in Rest(n, ws) : Bit(x, w, n) = Bit(y, w, n) THEN m[Sub(x, ws, n) + 1][Sub(y, ws, n) + 1] ELSE 0

\* the matrices of the named observables, entries in units of 1/U
U == 1000000
Named == [
  X |-> [re |-> <<<<0, U>>, <<U, 0>>>>, im |-> <<<<0, 0>>, <<0, 0>>>>],
  Y |-> [re |-> <<<<0, 0>>, <<0, 0>>>>, im |-> <<<<0, -U>>, <<U, 0>>>>],
  Z |-> [re |-> <<<<U, 0>>, <<0, -U>>>>, im |-> <<<<0, 0>>, <<0, 0>>>>],
  I |-> [re |-> <<<<U, 0>>, <<0, U>>>>, im |-> <<<<0, 0>>, <<0, 0>>>>],
  H |-> [re |-> <<<<707107, 707107>>, <<707107, -707107>>>>, im |-> <<<<0, 0>>, <<0, 0>>>>] ]

(***************************************************************************)
(* A Pauli word as a permutation with phases: P|x> = i^ph |y>              *)
(***************************************************************************)
FlipMask(w) == LET n == Len(w) IN FoldLeft(LAMBDA a, q : a + (IF w[q] \in {1, 2} THEN Two(n - q) ELSE 0), 0, [q \in 1..n |-> q])
\* the image of x: add or subtract the flipped bits
ImageOf(w, x) == LET n == Len(w) IN
  FoldLeft(LAMBDA a, q : a + (IF w[q] \in {1, 2} THEN (IF Bit(x, q-1, n) = 0 THEN Two(n - q) ELSE -Two(n - q)) ELSE 0), x, [q \in 1..n |-> q])
PhaseOf(w, x) == LET n == Len(w) IN
  FoldLeft(LAMBDA a, q : a + (IF w[q] = 2 THEN (IF Bit(x, q-1, n) = 0 THEN 1 ELSE 3)
                              ELSE IF w[q] = 3 THEN 2 * Bit(x, q-1, n) ELSE 0), 0, [q \in 1..n |-> q]) % 4
=============================================================================
