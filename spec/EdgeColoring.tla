---------------------------- MODULE EdgeColoring ----------------------------
(***************************************************************************)
(* The Fiol-Vilaltella heuristic as a nondeterministic state machine: all  *)
(* random choices, all edge orders.  GRAPHS is the set of edge sets        *)
(* explored, EXTRA how many colours beyond the maximum degree.             *)
(***************************************************************************)
EXTENDS ColorOps, TLC
CONSTANTS NV, EXTRA, RL, IL, FAMILY
VARIABLES E, D, col, todo, pc, prev, rep, iter, last, node, newc, chain, ok
vars == <<E, D, col, todo, pc, prev, rep, iter, last, node, newc, chain, ok>>
Pairs == {e \in SUBSET (1..NV) : Cardinality(e) = 2}
Cycle == {{i, (i % NV) + 1} : i \in 1..NV}
GRAPHS == CASE FAMILY = "all" -> {g \in SUBSET Pairs : g # {}}
            [] FAMILY = "cycle" -> {Cycle}
            [] FAMILY = "complete" -> {Pairs}
            [] FAMILY = "chord" -> {Cycle \cup {{1, 3}}}
            [] FAMILY = "star" -> {{{1, i} : i \in 2..NV}}
None == 0
Total == LET f[S \in SUBSET NodesOf(E)] == IF S = {} THEN 0 ELSE LET u == CHOOSE u \in S : TRUE IN Level(E, col, u) + f[S \ {u}]
         IN f[NodesOf(E)]
Init == /\ E \in GRAPHS /\ \E x \in 0..EXTRA : D = MaxDegree(E) + x
        /\ col = [e \in E |-> NOCOLOR] /\ todo = E /\ pc = "pre" /\ prev = 0 /\ rep = 0 /\ iter = 1
        /\ last = None /\ node = None /\ newc = NOCOLOR /\ chain = {} /\ ok = FALSE
Keep(vs) == UNCHANGED vs
Pre == /\ pc = "pre" /\ todo # {}
       /\ \E e \in todo :
            LET near == {col[f] : f \in {f \in E : f # e /\ f \cap e # {}}}
                free == 0..(D - 1) \ near
            IN  \E c \in (IF free = {} THEN 0..(D - 1) ELSE free) :
                  col' = [col EXCEPT ![e] = c] /\ todo' = todo \ {e}
       /\ UNCHANGED <<E, D, pc, prev, rep, iter, last, node, newc, chain, ok>>
PreDone == /\ pc = "pre" /\ todo = {} /\ pc' = "loop" /\ prev' = Total /\ rep' = 0
           /\ UNCHANGED <<E, D, col, todo, iter, last, node, newc, chain, ok>>
Worst == LET m == MaxIn({Level(E, col, u) : u \in NodesOf(E)}) IN {u \in NodesOf(E) : Level(E, col, u) = m}
Finish == /\ pc' = "done" /\ ok' = Proper(E, col) /\ last' = None /\ node' = None /\ newc' = NOCOLOR /\ chain' = {}
Loop == /\ pc = "loop"
        /\ IF prev = 0 THEN Finish /\ UNCHANGED <<E, D, col, todo, prev, rep, iter>>
           ELSE \E u \in Worst : \E e \in At(E, u) : \E c \in 0..(D - 1) \ ColorsAt(E, col, u) :
                  /\ \E f \in At(E, u) : f # e /\ col[f] = col[e]
                  /\ pc' = "kempe" /\ last' = u /\ node' = (CHOOSE v \in e : v # u) /\ newc' = c /\ chain' = {}
                  /\ UNCHANGED <<E, D, col, todo, prev, rep, iter, ok>>
Kempe == /\ pc = "kempe"
         /\ IF newc = NOCOLOR \/ last \in chain THEN pc' = "after" /\ UNCHANGED <<E, D, col, todo, prev, rep, iter, last, node, newc, chain, ok>>
            ELSE LET nexts == {w \in NodesOf(E) : w # last /\ {node, w} \in E /\ w # node /\ col[{node, w}] = newc}
                     old == col[{last, node}]
                     col1 == [col EXCEPT ![{last, node}] = newc]
                     var == Level(E, col1, node) - Level(E, col, node)
                 IN  /\ col' = col1 /\ chain' = chain \cup {last}
                     /\ IF nexts = {} \/ var < 0 THEN last' = node /\ node' = None /\ newc' = NOCOLOR
                        ELSE \E w \in nexts : last' = node /\ node' = w /\ newc' = old
                     /\ UNCHANGED <<E, D, todo, pc, prev, rep, iter, ok>>
Restart == /\ col' = [e \in E |-> NOCOLOR] /\ todo' = E /\ pc' = "pre" /\ iter' = iter + 1 /\ last' = None /\ node' = None
           /\ newc' = NOCOLOR /\ chain' = {} /\ rep' = 0 /\ prev' = 0 /\ UNCHANGED <<E, D, ok>>
After == /\ pc = "after"
         /\ IF Total = 0 THEN Finish /\ UNCHANGED <<E, D, col, todo, prev, rep, iter>>
            ELSE IF Total >= prev /\ rep + 1 > RL
                 THEN IF iter > IL THEN Finish /\ UNCHANGED <<E, D, col, todo, prev, rep, iter>> ELSE Restart
                 ELSE /\ rep' = (IF Total >= prev THEN rep + 1 ELSE 0)
                      /\ prev' = (IF Total < prev THEN Total ELSE prev)
                      /\ pc' = "loop" /\ last' = None /\ node' = None /\ newc' = NOCOLOR /\ chain' = {}
                      /\ UNCHANGED <<E, D, col, todo, iter, ok>>
Next == Pre \/ PreDone \/ Loop \/ Kempe \/ After
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
TypeOK == pc \in {"pre", "loop", "kempe", "after", "done"} /\ \A e \in E : col[e] \in -1..(D - 1)
DoneOK == pc = "done" => Outcome(E, D, col, ok)
NotStuck == pc # "done" => ENABLED Next
\* with as many colours as the maximum degree the first colour is never lost: the commuting set is never empty
ZeroUsed == D = MaxDegree(E) /\ (pc # "pre" \/ todo = {}) => \E e \in E : col[e] = 0
\* whatever the order the edges are listed in, the edges picked are non-empty and disjoint
Orders == {s \in [1..Cardinality(E) -> E] : \A e \in E : \E i \in DOMAIN s : s[i] = e}
AsSeq(e) == LET a == CHOOSE a \in e : \A b \in e : a <= b IN <<a, CHOOSE b \in e : b # a>>
PickOK == pc = "done" /\ D = MaxDegree(E) => LET es == [i \in 1..Cardinality(E) |-> AsSeq(SetToSeq(E)[i])]
                             rev == Reverse(es)
                         IN  \A s \in {es, rev} : LET r == PickFrom(s, col, 0, {}) IN r # <<>> /\ Disjoint(r) /\ SubList(r, s)
Terminates == <>(pc = "done")
=============================================================================
