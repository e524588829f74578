------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Who may change what.  The store maps names of objects the caller holds  *)
(* (inputs and earlier results) to their contents; a call of the library   *)
(* adds its result and changes nothing.  Repeating a call from the same    *)
(* seed yields the same contents, whatever ran in between.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Holds(store, seen) == \A n \in DOMAIN store : n \in DOMAIN seen /\ seen[n] = store[n]
Changed(store, seen) == {n \in DOMAIN store : n \notin DOMAIN seen \/ seen[n] # store[n]}
AfterCall(store, new) == new @@ store
\* memo: what was computed from which inputs and seed
Consistent(memo, key, val) == key \in DOMAIN memo => memo[key] = val
=============================================================================
