------------------------------ MODULE Circuits ------------------------------
(***************************************************************************)
(* Circuits as sequences of gates [g, ws, ps, inv], each gate being a      *)
(* sequence of Pauli rotations exp(-i t/2 P) up to a global phase.         *)
(***************************************************************************)
EXTENDS Bloch

R(letters, ws, t) == <<Pos(Lift(letters, ws, N)), t>>
HPI == PI \div 2
QPI == PI \div 4
\* a product of (I - P_i) factors in the exponent: exp(i t prod (I - P_i) / 2^k) as rotations, P_i = letter ls[i] on ws[i]
Subsets(k) == SetToSeq((SUBSET (1..k)) \ {{}})
ProjRots(ls, ws, t) ==
  LET k == Len(ls) IN
  [i \in 1..Len(Subsets(k)) |-> LET s == Subsets(k)[i] IN
     <<Pos([q \in 1..N |-> IF \E j \in s : ws[j] = q - 1 THEN ls[CHOOSE j \in s : ws[j] = q - 1] ELSE 0]),
       LET m == IF k = 1 THEN t ELSE DivInt(t, Pow(2, k - 1)) IN IF Cardinality(s) % 2 = 0 THEN -m ELSE m>>]

RotsOf(g) ==
  LET ws == g.ws ps == g.ps IN
  CASE g.g = "RX" -> <<R(<<1>>, ws, ps[1])>>
    [] g.g = "RY" -> <<R(<<2>>, ws, ps[1])>>
    [] g.g \in {"RZ", "PhaseShift", "U1"} -> <<R(<<3>>, ws, ps[1])>>
    [] g.g = "PauliX" -> <<R(<<1>>, ws, PI)>>
    [] g.g = "PauliY" -> <<R(<<2>>, ws, PI)>>
    [] g.g = "PauliZ" -> <<R(<<3>>, ws, PI)>>
    [] g.g = "S" -> <<R(<<3>>, ws, HPI)>>
    [] g.g = "T" -> <<R(<<3>>, ws, QPI)>>
    [] g.g = "SX" -> <<R(<<1>>, ws, HPI)>>
    [] g.g = "Hadamard" -> <<R(<<2>>, ws, HPI), R(<<1>>, ws, PI)>>
    [] g.g = "Rot" -> <<R(<<3>>, ws, ps[1]), R(<<2>>, ws, ps[2]), R(<<3>>, ws, ps[3])>>
    \* U3(a, b, c) = PhaseShift(b + c) Rot(c, a, -c), up to a phase: RZ(c), RY(a), RZ(b)
    [] g.g = "U3" -> <<R(<<3>>, ws, ps[3]), R(<<2>>, ws, ps[1]), R(<<3>>, ws, ps[2])>>
    [] g.g = "CNOT" -> ProjRots(<<3, 1>>, ws, PI)
    [] g.g = "CY" -> ProjRots(<<3, 2>>, ws, PI)
    [] g.g = "CZ" -> ProjRots(<<3, 3>>, ws, PI)
    [] g.g = "Toffoli" -> ProjRots(<<3, 3, 1>>, ws, PI)
    [] g.g = "SWAP" -> <<R(<<1, 1>>, ws, HPI), R(<<2, 2>>, ws, HPI), R(<<3, 3>>, ws, HPI)>>
    [] g.g = "CSWAP" -> ProjRots(<<3, 1>>, <<ws[3], ws[2]>>, PI) \o ProjRots(<<3, 3, 1>>, ws, PI) \o ProjRots(<<3, 1>>, <<ws[3], ws[2]>>, PI)
    [] g.g = "CRX" -> <<R(<<1>>, <<ws[2]>>, ps[1] \div 2), R(<<3, 1>>, ws, -(ps[1] \div 2))>>
    [] g.g = "CRY" -> <<R(<<2>>, <<ws[2]>>, ps[1] \div 2), R(<<3, 2>>, ws, -(ps[1] \div 2))>>
    [] g.g = "CRZ" -> <<R(<<3>>, <<ws[2]>>, ps[1] \div 2), R(<<3, 3>>, ws, -(ps[1] \div 2))>>
    [] g.g = "ControlledPhaseShift" -> ProjRots(<<3, 3>>, ws, ps[1])
    [] g.g = "PauliRot" -> IF \A j \in 1..Len(g.w) : g.w[j] = 0 THEN <<>> ELSE <<R(g.w, ws, ps[1])>>
    [] g.g = "MultiRZ" -> <<R([j \in 1..Len(ws) |-> 3], ws, ps[1])>>
    \* a matrix that was composed from rotations: g.rots = sequence of [w, t]
    [] g.g = "QubitUnitary" -> [j \in 1..Len(g.rots) |-> R(g.rots[j].w, ws, g.rots[j].t)]
GateRots(g) == LET rs == RotsOf(g) IN
  IF g.inv THEN [j \in 1..Len(rs) |-> <<rs[Len(rs) + 1 - j][1], -(rs[Len(rs) + 1 - j][2])>>] ELSE rs
ApplyGate(r, g) == FoldLeft(LAMBDA acc, x : Rot(acc, x[1], x[2] \div 2), r, GateRots(g))
ApplyCircuit(r, gs) == FoldLeft(LAMBDA acc, g : ApplyGate(acc, g), r, gs)
\* the operators X_q and Z_q as Pauli vectors
UnitVec(p) == [k \in 1..D4 |-> IF k = p THEN S ELSE 0]
Probe(j) == IF j <= N THEN UnitVec(Pos(Lift(<<1>>, <<j - 1>>, N))) ELSE UnitVec(Pos(Lift(<<3>>, <<j - N - 1>>, N)))
=============================================================================
