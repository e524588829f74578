------------------------------ MODULE ArrowsMC ------------------------------
(* The directed graph, built pair by pair in any order: a pair leaves       *)
(* arrows only when its commutator is a new node, whose round is one more   *)
(* than the deepest there was when the round began.                         *)
EXTENDS LieClosure, FiniteSetsExt
CONSTANTS K, GEN
VARIABLES gen, depth, arrows, todo, fresh, rnd, done
vars == <<gen, depth, arrows, todo, fresh, rnd, done>>
Words == [1..K -> 0..3]
Here == DOMAIN depth
Init == \E G \in UNION {kSubset(k, {<<w, TRUE>> : w \in Words}) : k \in 1..GEN} :
          gen = G /\ depth = [x \in G |-> 0] /\ arrows = {} /\ todo = G \X G /\ fresh = FALSE /\ rnd = 1 /\ done = FALSE
New(p) == Anti(p[1], p[2]) /\ Brk(p[1], p[2]) \notin Here
\* pairs without a new commutator change nothing: they may be skipped at once
Take == /\ ~done
        /\ \E p \in todo :
             /\ New(p)
             /\ LET c == Brk(p[1], p[2]) IN
                /\ depth' = [x \in Here \cup {c} |-> IF x = c THEN rnd ELSE depth[x]]
                /\ arrows' = arrows \cup Arrows(p[1], p[2], c)
             /\ todo' = todo \ {p}
        /\ fresh' = TRUE /\ UNCHANGED <<gen, rnd, done>>
NextRound == /\ ~done /\ ~\E p \in todo : New(p)
             /\ IF fresh THEN todo' = Here \X Here /\ fresh' = FALSE /\ rnd' = rnd + 1 /\ UNCHANGED done
                ELSE done' = TRUE /\ UNCHANGED <<todo, fresh, rnd>>
             /\ UNCHANGED <<gen, depth, arrows>>
Next == Take \/ NextRound
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Result == done => Here = Close(gen) /\ depth = DepthOf(gen)
Explained == ArrowsOK(Here, depth, arrows)
\* no arrow leaves a node for one of an earlier round unless the two are a pair pointing both ways
Upward == \A q \in arrows : depth[q[1]] < depth[q[2]] \/ <<q[2], q[1]>> \in arrows
Ends == <>done
=============================================================================
