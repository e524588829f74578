------------------------------ MODULE ColorOps ------------------------------
(***************************************************************************)
(* Edge colourings of simple graphs and commuting (disjoint) edge sets.    *)
(* A graph is its set of edges, an edge is a set of two nodes; a colouring *)
(* is a function from edges to colours.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
NOCOLOR == -1
NodesOf(E) == UNION E
At(E, u) == {e \in E : u \in e}
Degree(E, u) == Cardinality(At(E, u))
MaxIn(S) == CHOOSE x \in S : \A y \in S : y <= x
MaxDegree(E) == IF E = {} THEN 0 ELSE MaxIn({Degree(E, u) : u \in NodesOf(E)})
ColorsAt(E, col, u) == {col[e] : e \in At(E, u)}
Level(E, col, u) == Degree(E, u) - Cardinality(ColorsAt(E, col, u))
Proper(E, col) == \A e, f \in E : e # f /\ e \cap f # {} => col[e] # col[f]
InRange(E, col, D) == \A e \in E : col[e] \in 0..(D - 1)

(* what a run of the heuristic may end with *)
Outcome(E, D, col, ok) == /\ InRange(E, col, D)
                          /\ ok = Proper(E, col)
                          /\ D >= 2 * MaxDegree(E) - 1 => ok

(* commuting sets: es and res are sequences of edges written as sequences of qubits *)
Qubits(e) == {e[i] : i \in 1..Len(e)}
Disjoint(es) == \A i, j \in 1..Len(es) : i # j => Qubits(es[i]) \cap Qubits(es[j]) = {}
RECURSIVE SubListFrom(_, _, _, _)
SubListFrom(res, es, i, j) == IF i > Len(res) THEN TRUE
                              ELSE IF j > Len(es) THEN FALSE
                              ELSE IF res[i] = es[j] THEN SubListFrom(res, es, i + 1, j + 1) ELSE SubListFrom(res, es, i, j + 1)
SubList(res, es) == SubListFrom(res, es, 1, 1)
SubCollection(res, es) == \A i \in 1..Len(res) : \E j \in 1..Len(es) : res[i] = es[j]
(* the selection rule: edges of one colour, in the order given, skipping overlaps *)
RECURSIVE PickFrom(_, _, _, _)
PickFrom(es, col, c, taken) ==
  IF es = <<>> THEN <<>>
  ELSE LET e == Head(es) IN
       IF col[Qubits(e)] = c /\ Qubits(e) \cap taken = {} THEN <<e>> \o PickFrom(Tail(es), col, c, taken \cup Qubits(e))
       ELSE PickFrom(Tail(es), col, c, taken)
=============================================================================
