------------------------------ MODULE Register ------------------------------
(***************************************************************************)
(* The register: N qubits, numbered from 0 as in the implementation, and   *)
(* the names of one-, two- and three-qubit directions in catalogue order.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT N
ASSUME N \in 1..8
Sites == 0..(N-1)

Dirs(k) == CASE k = 1 -> [i \in 1..3  |-> <<i>>]
             [] k = 2 -> [i \in 1..9  |-> <<((i-1) \div 3) + 1, ((i-1) % 3) + 1>>]
             [] k = 3 -> [i \in 1..27 |-> <<((i-1) \div 9) + 1, (((i-1) \div 3) % 3) + 1, ((i-1) % 3) + 1>>]

\* Increasing tuples of qubits in lexicographic order
Combos(k) ==
  CASE k = 1 -> [i \in 1..N |-> <<i-1>>]
    [] k = 2 -> SetToSortSeq({<<a, b>> \in Sites \X Sites : a < b},
                   LAMBDA s, t : s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2]))
    [] k = 3 -> SetToSortSeq({<<a, b, c>> \in Sites \X Sites \X Sites : a < b /\ b < c},
                   LAMBDA s, t : s[1] < t[1] \/ (s[1] = t[1] /\ (s[2] < t[2] \/ (s[2] = t[2] /\ s[3] < t[3]))))
=============================================================================
