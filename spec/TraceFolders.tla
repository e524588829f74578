---------------------------- MODULE TraceFolders ----------------------------
(* Recorded histories of save_path_creator, checked against FolderOps.      *)
EXTENDS FolderOps, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tix, lix, dirs, files
Ev == Traces[tix].ev
Fail(cond, name) == IF cond THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Init == tix \in 1..Len(Traces) /\ lix = 0 /\ dirs = {<<>>} /\ files = {}
Next ==
  /\ lix < Len(Ev) /\ lix' = lix + 1 /\ tix' = tix
  /\ LET e == Ev[lix + 1]
         d1 == CASE e.op \in {"ask", "race"} -> AskDirs(dirs, e.p) [] e.op = "remove" -> RemoveDirs(dirs, e.p) [] OTHER -> dirs
         f1 == CASE e.op = "race" -> WriteFiles(files, e.p \o <<"rival">>, 9) [] e.op = "write" -> WriteFiles(files, e.p, e.c)
                 [] e.op = "remove" -> RemoveFiles(files, e.p) [] OTHER -> files
         f == IF e.err # "" THEN {"raised"}
              ELSE IF e.op \in {"ask", "race"} THEN
                   Fail(e.ret = e.p /\ e.joined, "returned-path") \cup Fail(d1 \subseteq SetOf(e.dirs), "missing-folder") \cup
                   Fail(SetOf(e.dirs) \subseteq d1, "extra-folder") \cup Fail(SetOf(e.files) = f1, "files-disturbed") \cup
                   Fail(e.same, "replaced")
              ELSE {}
     IN  /\ dirs' = d1 /\ files' = f1
         /\ IF f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<tix, lix, dirs, files>>
=============================================================================
