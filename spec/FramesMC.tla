------------------------------ MODULE FramesMC ------------------------------
(* The discipline as a state machine: three objects, calls that copy or     *)
(* alias; with COPY = FALSE a layer that works in place on what it returned *)
(* is caught by Frame.                                                      *)
EXTENDS Frames
CONSTANTS COPY, STEPS
VARIABLES store, cell, held, n
\* cell: contents of memory cells; held: name -> cell
Init == cell = <<0>> /\ held = [x \in {"U0"} |-> 1] /\ store = [x \in {"U0"} |-> 0] /\ n = 0
Name(k) == CASE k = 1 -> "U1" [] k = 2 -> "U2" [] k = 3 -> "U3" [] OTHER -> "U4"
Step == /\ n < STEPS /\ n' = n + 1
        /\ LET src == held[IF n = 0 THEN "U0" ELSE Name(n)] val == cell[src] + 1 IN
           IF COPY THEN cell' = Append(cell, val) /\ held' = (Name(n + 1) :> Len(cell) + 1) @@ held
           ELSE cell' = [cell EXCEPT ![src] = val] /\ held' = (Name(n + 1) :> src) @@ held
        /\ store' = AfterCall(store, Name(n + 1) :> cell'[held'[Name(n + 1)]])
Spec == Init /\ [][Step]_<<store, cell, held, n>>
Frame == Holds(store, [x \in DOMAIN held |-> cell[held[x]]])
=============================================================================
