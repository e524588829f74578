----------------------------- MODULE LieClosure -----------------------------
(***************************************************************************)
(* Closing a set of Pauli words under commutators, round by round, the way *)
(* algebra_graphs does.  A node is <<word, real>>: a sequence of letters   *)
(* and whether its coefficient is real.  Two words have a non-zero         *)
(* commutator iff they differ, both being non-identity, on an odd number   *)
(* of sites; the commutator is then (up to sign) 2i times the product of   *)
(* coefficients on the word of letterwise products.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Prod(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = b THEN 0 ELSE 6 - a - b
Clash(v, w) == Cardinality({i \in 1..Len(v) : v[i] # 0 /\ w[i] # 0 /\ v[i] # w[i]})
Anti(x, y) == Clash(x[1], y[1]) % 2 = 1
Brk(x, y) == <<[i \in 1..Len(x[1]) |-> Prod(x[1][i], y[1][i])], x[2] # y[2]>>
\* one round: all commutators of the nodes there are
Round(S) == S \cup {Brk(p[1], p[2]) : p \in {q \in S \X S : Anti(q[1], q[2])}}
RECURSIVE Close(_)
Close(S) == LET n == Round(S) IN IF n = S THEN S ELSE Close(n)
\* in which round a node appears
RECURSIVE Depths(_, _, _)
Depths(S, d, f) == LET n == Round(S) IN IF n = S THEN f ELSE Depths(n, d + 1, [x \in n |-> IF x \in S THEN f[x] ELSE d + 1])
DepthOf(S) == Depths(S, 0, [x \in S |-> 0])
\* the undirected graph also links every node to the identity, its square
Id(k) == <<[i \in 1..k |-> 0], TRUE>>
WithId(C) == C \cup {Id(Len((CHOOSE x \in C : TRUE)[1]))}
\* neighbours: a commutator and the two nodes it is made of, a node and the identity
Links(x, y) == (IF Anti(x, y) THEN {{x, Brk(x, y)}, {y, Brk(x, y)}} ELSE {}) \cup
               (IF x[1] = y[1] THEN {{x, Id(Len(x[1]))}, {y, Id(Len(x[1]))}} ELSE {})
Edges(C) == UNION {Links(q[1], q[2]) : q \in C \X C}
\* the directed graph: a node c that was not given came from a pair of nodes of
\* earlier rounds, both pointing to it and to each other; arrows of one such pair
Arrows(a, b, c) == {<<a, b>>, <<b, a>>, <<a, c>>, <<b, c>>}
\* pairs that may have produced c, given the rounds, and of which all arrows are there
\* (the partner of a is then Brk(a, c))
Makers(c, C, d, A) == {a \in C : /\ <<a, c>> \in A /\ d[a] < d[c]
                                 /\ LET b == Brk(a, c) IN b \in C /\ d[b] < d[c] /\ Anti(a, b) /\ Brk(a, b) = c /\ Arrows(a, b, c) \subseteq A}
ArrowsOK(C, d, A) ==
  LET new == {c \in C : d[c] > 0}
      mk == [c \in new |-> Makers(c, C, d, A)]
  IN  /\ \A c \in new : mk[c] # {}
      /\ A \subseteq UNION {UNION {Arrows(a, Brk(a, c), c) : a \in mk[c]} : c \in new}
=============================================================================
