------------------------------ MODULE ClosureMC -----------------------------
(* The closing loop as a process that takes one pair at a time in any       *)
(* order, rounds over a snapshot: it ends with the least closed set.        *)
EXTENDS LieClosure, FiniteSetsExt
CONSTANTS K, GEN
VARIABLES gen, nodes, edges, snap, todo, added, done
vars == <<gen, nodes, edges, snap, todo, added, done>>
Words == [1..K -> 0..3]
Start(S) == gen = S /\ nodes = S /\ edges = {} /\ snap = S /\ todo = S \X S /\ added = 0 /\ done = FALSE
Init == \E S \in UNION {kSubset(k, {<<w, TRUE>> : w \in Words}) : k \in 1..GEN} : Start(S)
Take == /\ ~done /\ todo # {}
        /\ \E p \in (IF K = 1 THEN todo ELSE {CHOOSE q \in todo : TRUE}) :
             /\ todo' = todo \ {p}
             /\ LET ls == Links(p[1], p[2]) IN
                /\ nodes' = nodes \cup UNION ls /\ edges' = edges \cup ls /\ added' = added + Cardinality(ls \ edges)
        /\ UNCHANGED <<gen, snap, done>>
NextRound == /\ ~done /\ todo = {}
             /\ IF added = 0 THEN done' = TRUE /\ UNCHANGED <<snap, todo, added>>
                ELSE snap' = nodes /\ todo' = nodes \X nodes /\ added' = 0 /\ UNCHANGED done
             /\ UNCHANGED <<gen, nodes, edges>>
Next == Take \/ NextRound
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Result == done => nodes = WithId(Close(gen)) /\ edges = Edges(nodes)
Least == nodes \subseteq WithId(Close(gen))
Closed == done => \A x, y \in nodes : Anti(x, y) => Brk(x, y) \in nodes
Ends == <>done
=============================================================================
