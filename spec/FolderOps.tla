----------------------------- MODULE FolderOps -----------------------------
(***************************************************************************)
(* A file system below a base folder: dirs is a set of paths (sequences of *)
(* names, the base folder being <<>>), files a set of [p, c] records.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
PrefixesOf(p) == {SubSeq(p, 1, k) : k \in 0..Len(p)}
Below(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
\* asking for a folder
AskDirs(dirs, p) == dirs \cup PrefixesOf(p)
\* what others do
RemoveDirs(dirs, p) == {q \in dirs : ~Below(p, q)}
RemoveFiles(files, p) == {f \in files : ~Below(p, f.p)}
WriteFiles(files, p, c) == {f \in files : f.p # p} \cup {[p |-> p, c |-> c]}
=============================================================================
