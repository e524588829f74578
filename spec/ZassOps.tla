------------------------------ MODULE ZassOps ------------------------------
(* Alternation of the Zassenhaus layer: ratio[1] line-search calls, then    *)
(* ratio[2] commutator calls, and so on.                                    *)
EXTENDS Integers, Sequences
ZAfter(ratio, phase, cnt) ==
  LET lim == IF phase = "su4" THEN ratio[1] ELSE ratio[2] IN
  IF cnt + 1 >= lim THEN [phase |-> (IF phase = "su4" THEN "su8" ELSE "su4"), cnt |-> 0] ELSE [phase |-> phase, cnt |-> cnt + 1]
\* the same, in closed form: the phase of the i-th call
ZPhaseAt(ratio, i) == IF (i - 1) % (ratio[1] + ratio[2]) < ratio[1] THEN "su4" ELSE "su8"
=============================================================================
