---------------------------- MODULE TraceClosure ----------------------------
(* Commutator graphs built by algebra_graphs, checked against LieClosure.   *)
EXTENDS LieClosure, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tix, lix
Fail(cond, name) == IF cond THEN {} ELSE {name}
Node(x) == <<x.w, x.re>>
SetOf(xs) == {Node(xs[i]) : i \in 1..Len(xs)}
GraphOK(e) ==
  LET S == SetOf(e.gen) C == IF e.a = "graph" THEN WithId(Close(S)) ELSE Close(S) IN
  Fail(SetOf(e.nodes) = C /\ Len(e.nodes) = Cardinality(C), "nodes") \cup
  (IF e.a = "graph" THEN Fail({{Node(p[1]), Node(p[2])} : p \in ToSet(e.edges)} = Edges(C), "edges")
   ELSE LET d == DepthOf(S) IN Fail(\A i \in 1..Len(e.nodes) : Node(e.nodes[i]) \in C => e.depth[i] = d[Node(e.nodes[i])], "depth") \cup
        Fail(SetOf(e.nodes) = C => ArrowsOK(C, d, {<<Node(p[1]), Node(p[2])>> : p \in ToSet(e.edges)}), "arrows")) \cup
  Fail(e.same, "input changed")
\* the two-qubit words on sites 0,1 and on 1,2, as words on three sites
PairWords(i, j) == {<<[k \in 1..3 |-> IF k = i THEN a ELSE IF k = j THEN b ELSE 0], TRUE>> : a \in 1..3, b \in 1..3}
CatalogueOK(e) == Fail(SetOf(e.A) = PairWords(1, 2) /\ Len(e.A) = 9 /\ SetOf(e.B) = PairWords(2, 3) /\ Len(e.B) = 9 /\ e.ones, "catalogue")
Handle(e) == IF e.err # "" THEN {"raised"} ELSE IF e.a = "words" THEN CatalogueOK(e) ELSE GraphOK(e)
Init == tix \in 1..Len(Traces) /\ lix = 0
Next == /\ lix < Len(Traces[tix].ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET f == Handle(Traces[tix].ev[lix + 1]) IN IF f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<tix, lix>>
=============================================================================
