----------------------------- MODULE SamplerOps -----------------------------
(***************************************************************************)
(* Sampler of random directions (stochastic layer).  used: qubits used in  *)
(* this round, left: set of directions not drawn yet.                      *)
(***************************************************************************)
EXTENDS Register

DirSet(su2) == (IF su2 THEN Range(Dirs(1)) ELSE {}) \cup Range(Dirs(2))
DrawFree(used) == IF used = Sites THEN Sites ELSE Sites \ used
DrawPool(used, left, su2) ==
  LET l0 == IF left = {} THEN DirSet(su2) ELSE left
      free == DrawFree(used)
  IN  IF Cardinality(free) > 1 THEN l0
      ELSE IF \E d \in l0 : Len(d) = 1 THEN l0 ELSE l0 \cup Range(Dirs(1))
\* d drawn on the sequence qs of qubits is allowed
DrawOK(used, left, su2, d, qs) ==
  LET free == DrawFree(used)
      pool == DrawPool(used, left, su2)
  IN  /\ d \in pool
      /\ Cardinality(free) = 1 => Len(d) = 1
      /\ Len(qs) = Len(d)
      /\ Cardinality(Range(qs)) = Len(qs)
      /\ Range(qs) \subseteq free
DrawUsed(used, qs) == (IF used = Sites THEN {} ELSE used) \cup Range(qs)
DrawLeft(used, left, su2, d) == DrawPool(used, left, su2) \ {d}
=============================================================================
