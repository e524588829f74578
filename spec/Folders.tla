------------------------------ MODULE Folders ------------------------------
(***************************************************************************)
(* Several processes ask for folders at the same time: each looks whether  *)
(* the folder exists and, if not, creates the missing folders one by one,  *)
(* outermost first, accepting those that have appeared meanwhile.          *)
(***************************************************************************)
EXTENDS FolderOps, TLC
CONSTANTS PROCS, NAMES, DEPTH, TOLERANT
VARIABLES dirs, files, pc, want
vars == <<dirs, files, pc, want>>
Paths == UNION {[1..k -> NAMES] : k \in 1..DEPTH}
Init == dirs = {<<>>} /\ files = {} /\ pc = [q \in PROCS |-> "idle"] /\ want = [q \in PROCS |-> <<>>]
Ask(q, p) == /\ pc[q] = "idle" /\ want' = [want EXCEPT ![q] = p]
             /\ pc' = [pc EXCEPT ![q] = IF p \in dirs THEN "returned" ELSE "creating"] /\ UNCHANGED <<dirs, files>>
\* one mkdir system call for the next missing folder
Mkdir(q) == /\ pc[q] = "creating"
            /\ LET missing == {p \in PrefixesOf(want[q]) : p \notin dirs} IN
               IF missing = {} THEN /\ pc' = [pc EXCEPT ![q] = IF TOLERANT THEN "returned" ELSE "raised"] /\ UNCHANGED <<dirs, files, want>>
               ELSE LET p == CHOOSE p \in missing : \A r \in missing : Len(p) <= Len(r) IN
                    /\ dirs' = dirs \cup {p}
                    /\ pc' = [pc EXCEPT ![q] = IF p = want[q] THEN "returned" ELSE "creating"] /\ UNCHANGED <<files, want>>
Again(q) == pc[q] = "returned" /\ pc' = [pc EXCEPT ![q] = "idle"] /\ UNCHANGED <<dirs, files, want>>
Write(p) == p \in dirs /\ p # <<>> /\ files' = WriteFiles(files, p \o <<"f">>, 1) /\ UNCHANGED <<dirs, pc, want>>
Next == (\E q \in PROCS : (\E p \in Paths : Ask(q, p)) \/ Mkdir(q) \/ Again(q)) \/ (\E p \in Paths : Write(p))
Spec == Init /\ [][Next]_vars /\ \A q \in PROCS : WF_vars(Mkdir(q))
Parents == \A p \in dirs : PrefixesOf(p) \subseteq dirs
Exists == \A q \in PROCS : pc[q] = "returned" => PrefixesOf(want[q]) \subseteq dirs
NeverRaises == \A q \in PROCS : pc[q] # "raised"
Undisturbed == [][dirs \subseteq dirs' /\ files \subseteq files']_vars
Returns == \A q \in PROCS : (pc[q] = "creating") ~> (pc[q] = "returned")
=============================================================================
