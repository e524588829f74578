----------------------------- MODULE GenFolders -----------------------------
(* Histories of requests, of other programs' writes and removals, and of    *)
(* races lost to another process.                                           *)
EXTENDS FolderOps, TLC, Json, Randomization
CONSTANTS LEN, DEPTH
VARIABLES dirs, files, ops, fin
Names == {"a", "b", "run 1", "tfim_0.5", "tfim_0.25", "A", ".hidden", "x.y.z", "v1.", "~", "$HOME", "r=%d"}
\* a small random choice of names for each history, so that folders meet again
VARIABLE names
Paths == UNION {[1..k -> names] : k \in 1..DEPTH}
Init == names \in {RandomSubset(3, Names) : i \in 1..20} /\ dirs = {<<>>} /\ files = {} /\ ops = <<>> /\ fin = FALSE
Put(r) == ops' = Append(ops, r)
Ask == \E p \in Paths : \E k \in 0..(Len(p) - 1) : \E form \in {"abs", "rel", "slash", "dot", "dots", "trail", "empty"} :
         /\ dirs' = AskDirs(dirs, p) /\ UNCHANGED files /\ Put([op |-> "ask", p |-> p, k |-> k, form |-> form])
Race == \E p \in Paths : p \notin dirs /\ dirs' = AskDirs(dirs, p) /\ files' = WriteFiles(files, p \o <<"rival">>, 9)
                         /\ Put([op |-> "race", p |-> p, k |-> Len(p) - 1, form |-> "abs"])
Write == \E p \in dirs : \E f \in {"f1", "f2"} : /\ files' = WriteFiles(files, p \o <<f>>, Len(ops)) /\ UNCHANGED dirs
                                                 /\ Put([op |-> "write", p |-> p \o <<f>>, c |-> Len(ops)])
Delete == \E p \in dirs : p # <<>> /\ dirs' = RemoveDirs(dirs, p) /\ files' = RemoveFiles(files, p) /\ Put([op |-> "remove", p |-> p])
Step == /\ ~fin /\ Len(ops) < LEN /\ UNCHANGED <<fin, names>> /\ (Ask \/ Race \/ Write \/ Delete)
Emit == /\ ~fin /\ Len(ops) = LEN /\ fin' = TRUE /\ PrintT("@CASE@" \o ToJson([ops |-> ops])) /\ UNCHANGED <<dirs, files, ops, names>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_<<dirs, files, ops, fin, names>>
=============================================================================
