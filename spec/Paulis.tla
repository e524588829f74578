------------------------------- MODULE Paulis -------------------------------
(***************************************************************************)
(* Pauli words.  A word on n qubits is a sequence over {0,1,2,3}           *)
(* (0 = I, 1 = X, 2 = Y, 3 = Z); qubit 0 of the implementation is the      *)
(* first element.  A word is also numbered 0 .. 4^n - 1, most significant  *)
(* digit first, and a vector over all words is a sequence of length 4^n    *)
(* whose entry k+1 belongs to word number k.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Letters == 0..3

\* The product of two single-site Paulis: letter, and the power of i in front.
SiteMul(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = b THEN 0 ELSE 6 - a - b
SitePhase(a, b) ==
  IF a = 0 \/ b = 0 \/ a = b THEN 0
  ELSE IF <<a, b>> \in {<<1,2>>, <<2,3>>, <<3,1>>} THEN 1 ELSE 3

Words(n) == [1..n -> Letters]
WMul(v, w) == [q \in 1..Len(v) |-> SiteMul(v[q], w[q])]
WPhase(v, w) == FoldLeft(LAMBDA a, b : a + b, 0, [q \in 1..Len(v) |-> SitePhase(v[q], w[q])]) % 4

Pow(b, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN b ELSE IF k = 2 THEN b*b
             ELSE IF k = 3 THEN b*b*b ELSE IF k = 4 THEN b*b*b*b ELSE b*b*b*b*b
IdxOf(w) == FoldLeft(LAMBDA a, d : 4 * a + d, 0, w)
WordOf(n, k) == [q \in 1..n |-> (k \div Pow(4, n - q)) % 4]
Weight(w) == Cardinality({q \in 1..Len(w) : w[q] # 0})
Support(w) == {q \in 1..Len(w) : w[q] # 0}

\* sgn(v, w) = +1 / -1 when v w = +i / -i times a word, 0 when v and w commute
SgnOf(v, w) == LET p == WPhase(v, w) IN IF p = 1 THEN 1 ELSE IF p = 3 THEN -1 ELSE 0
Commute(v, w) == WPhase(v, w) \in {0, 2}

\* Lift a word on `sites' (0-based, any order, distinct) to n qubits
Lift(w, sites, n) ==
  [q \in 1..n |-> IF \E j \in 1..Len(sites) : sites[j] = q - 1
                  THEN w[CHOOSE j \in 1..Len(sites) : sites[j] = q - 1] ELSE 0]
=============================================================================
