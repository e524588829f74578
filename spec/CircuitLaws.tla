---------------------------- MODULE CircuitLaws ----------------------------
(***************************************************************************)
(* The gates of module Circuits satisfy the textbook identities, for every *)
(* choice of wires and a grid of angles: inverses undo, powers and         *)
(* conjugations give the named gates, controls act on the control's        *)
(* excited state only.  Two circuits are the same when they do the same    *)
(* to all X_q and Z_q.                                                     *)
(***************************************************************************)
EXTENDS Circuits
CONSTANT GRID
VARIABLES wires, ang
G(nm, ws, ps) == [g |-> nm, ws |-> ws, ps |-> ps, inv |-> FALSE]
Inv(x) == [x EXCEPT !.inv = TRUE]
Same(a, b) == \A j \in 1..(2 * N) : \A x \in {ApplyCircuit(Probe(j), a)}, y \in {ApplyCircuit(Probe(j), b)} : CloseVec(x, y, 3000)
K == Min2(N, 3)
Init == /\ wires \in {f \in [1..K -> Sites] : \A i, j \in 1..K : i # j => f[i] # f[j]}
        /\ ang \in {j * (TWOPI \div GRID) + 40000000 : j \in 0..(GRID - 1)}
Next == UNCHANGED <<wires, ang>>
Spec == Init /\ [][Next]_<<wires, ang>>
q1 == <<wires[1]>>
q2 == <<wires[2]>>
q12 == <<wires[1], wires[2]>>
q21 == <<wires[2], wires[1]>>
q123 == <<wires[1], wires[2], wires[3]>>
A2 == 70000000
Kinds1 == {G(nm, q1, <<ang>>) : nm \in {"RX", "RY", "RZ", "PhaseShift", "U1"}} \cup {G(nm, q1, <<>>) : nm \in {"PauliX", "PauliY", "PauliZ", "S", "T", "SX", "Hadamard"}} \cup
          {G("Rot", q1, <<ang, A2, 130000000>>), G("U3", q1, <<ang, A2, 130000000>>)}
Kinds2 == IF N < 2 THEN {} ELSE {G(nm, q12, <<>>) : nm \in {"CNOT", "CY", "CZ", "SWAP"}} \cup {G(nm, q12, <<ang>>) : nm \in {"CRX", "CRY", "CRZ", "ControlledPhaseShift", "MultiRZ"}}
Kinds3 == IF N < 3 THEN {} ELSE {G("Toffoli", q123, <<>>), G("CSWAP", q123, <<>>)}
Inverses == \A x \in Kinds1 \cup Kinds2 \cup Kinds3 : Same(<<x, Inv(x)>>, <<>>) /\ Same(<<Inv(x), x>>, <<>>)
H(q) == G("Hadamard", q, <<>>)
Powers == /\ Same(<<G("T", q1, <<>>), G("T", q1, <<>>)>>, <<G("S", q1, <<>>)>>)
          /\ Same(<<G("S", q1, <<>>), G("S", q1, <<>>)>>, <<G("PauliZ", q1, <<>>)>>)
          /\ Same(<<G("SX", q1, <<>>), G("SX", q1, <<>>)>>, <<G("PauliX", q1, <<>>)>>)
          /\ Same(<<H(q1), H(q1)>>, <<>>)
          /\ Same(<<G("RX", q1, <<ang>>), G("RX", q1, <<A2>>)>>, <<G("RX", q1, <<ang + A2>>)>>)
Conjugations == /\ Same(<<H(q1), G("RX", q1, <<ang>>), H(q1)>>, <<G("RZ", q1, <<ang>>)>>)
                /\ Same(<<G("S", q1, <<>>), G("RY", q1, <<ang>>), Inv(G("S", q1, <<>>))>>, <<G("RX", q1, <<ang>>)>>)
                /\ Same(<<G("RZ", q1, <<ang>>), G("RY", q1, <<A2>>), G("RZ", q1, <<130000000>>)>>, <<G("Rot", q1, <<ang, A2, 130000000>>)>>)
                /\ Same(<<G("Rot", q1, <<130000000, ang, A2>>)>>, <<G("U3", q1, <<ang, A2, 130000000>>)>>)
C(nm, ws) == G(nm, ws, <<>>)
TwoQubit == N >= 2 =>
  /\ Same(<<H(q2), C("CNOT", q12), H(q2)>>, <<C("CZ", q12)>>)
  /\ Same(<<C("CZ", q12)>>, <<C("CZ", q21)>>)
  /\ Same(<<H(q1), H(q2), C("CNOT", q12), H(q1), H(q2)>>, <<C("CNOT", q21)>>)
  /\ Same(<<Inv(C("S", q2)), C("CNOT", q12), C("S", q2)>>, <<C("CY", q12)>>)
  /\ Same(<<C("CNOT", q12), C("CNOT", q21), C("CNOT", q12)>>, <<C("SWAP", q12)>>)
  /\ Same(<<G("ControlledPhaseShift", q12, <<PI>>)>>, <<C("CZ", q12)>>)
  /\ Same(<<C("CNOT", q12), G("RZ", q2, <<ang>>), C("CNOT", q12)>>, <<G("MultiRZ", q12, <<ang>>)>>)
  /\ Same(<<G("RZ", q2, <<ang \div 2>>), C("CNOT", q12), G("RZ", q2, <<-(ang \div 2)>>), C("CNOT", q12)>>, <<G("CRZ", q12, <<ang>>)>>)
  /\ Same(<<H(q2), G("CRZ", q12, <<ang>>), H(q2)>>, <<G("CRX", q12, <<ang>>)>>)
  /\ Same(<<G("RZ", q1, <<ang \div 2>>), G("CRZ", q12, <<ang>>)>>, <<G("ControlledPhaseShift", q12, <<ang>>)>>)
ThreeQubit == N >= 3 =>
  /\ Same(<<C("Toffoli", q123)>>, <<C("Toffoli", <<wires[2], wires[1], wires[3]>>)>>)
  /\ Same(<<H(<<wires[3]>>), C("Toffoli", q123), H(<<wires[3]>>)>>, <<H(q1), C("Toffoli", <<wires[3], wires[2], wires[1]>>), H(q1)>>)
  /\ Same(<<C("CSWAP", q123)>>, <<C("CSWAP", <<wires[1], wires[3], wires[2]>>)>>)
  \* the control excited: the controlled gate; not excited: nothing
  /\ \A x \in {ApplyCircuit(Zero, <<C("PauliX", q1), C("PauliX", q2), C("Toffoli", q123)>>)}, y \in {ApplyCircuit(Zero, <<C("PauliX", q1), C("PauliX", q2), C("PauliX", <<wires[3]>>)>>)} : CloseVec(x, y, 3000)
  /\ \A x \in {ApplyCircuit(Zero, <<C("PauliX", q1), C("Toffoli", q123)>>)}, y \in {ApplyCircuit(Zero, <<C("PauliX", q1)>>)} : CloseVec(x, y, 3000)
  /\ \A x \in {ApplyCircuit(Zero, <<C("PauliX", q1), C("PauliX", q2), C("CSWAP", q123)>>)}, y \in {ApplyCircuit(Zero, <<C("PauliX", q1), C("PauliX", <<wires[3]>>)>>)} : CloseVec(x, y, 3000)
=============================================================================
