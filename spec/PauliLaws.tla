------------------------------ MODULE PauliLaws ------------------------------
(* The laws of the Pauli algebra, checked on the machine's own operations   *)
(* for every triple of words on K sites: the specification is an algebra.   *)
EXTENDS PauliMachine
CONSTANT K
VARIABLES x, y, z
Mono == {[t |-> [i \in 1..K |-> <<i - 1, w[i]>>], c |-> <<1, 0>>] : w \in [1..K -> 0..3]}
Init == x \in Mono /\ y \in Mono /\ z \in Mono
Next == UNCHANGED <<x, y, z>>
Spec == Init /\ [][Next]_<<x, y, z>>
Assoc == Mul(Mul(x, y), z) = Mul(x, Mul(y, z))
Square == Mul(x, x).c = <<1, 0>> /\ WordSet(Mul(x, x)) = {}
AntiSym == Comm(x, y).c = CNeg(Comm(y, x).c)
Jacobi == LET a == MonoV(Comm(x, Comm(y, z))) b == MonoV(Comm(y, Comm(z, x))) c == MonoV(Comm(z, Comm(x, y)))
          IN  AddV(AddV(a, b), c) = EmptyV
CommuteTest == CommutesP(x, y) <=> (Mul(x, y).c = Mul(y, x).c)
\* the order is a strict order on letters
Irreflexive == ~Less(x, x)
Transitive == Less(x, y) /\ Less(y, z) => Less(x, z)
Total == Less(x, y) \/ Less(y, x) \/ Letters(x) = Letters(y)
Distrib == MulV(AddV(MonoV(x), MonoV(y)), MonoV(z)) = AddV(MulV(MonoV(x), MonoV(z)), MulV(MonoV(y), MonoV(z)))
=============================================================================
