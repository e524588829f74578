----------------------------- MODULE TracePlots -----------------------------
(* Curves of direction plots, checked against the gradients of the states.  *)
EXTENDS Bloch, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
TOL == 2000
VARIABLES tix, lix
Ev == Traces[tix].ev
Fail(cond, name) == IF cond THEN {} ELSE {name}
NonId(p) == Cardinality({q \in 1..N : W[p][q] # 0})
\* rs: Pauli vectors of the states, obs: the observables
Comp(e, p) == [k \in 1..Len(e.rs) |-> DivInt(Sum([j \in 1..Len(e.obs) |-> Grad(e.rs[k], p, e.obs[j])]), Pow(2, N))]
CloseSeq(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k], tol)
Step(e) ==
  LET comp == TLCEval([p \in 1..D4 |-> Comp(e, p)])
      words == {p \in 1..D4 : NonId(p) > 0}
      sumw(w) == [k \in 1..Len(e.rs) |-> Sum([p \in 1..D4 |-> IF NonId(p) = w THEN Abs(comp[p][k]) ELSE 0])]
      shown(p) == {i \in 1..Len(e.words) : e.words[i].p = p}
      vanishes(p) == \A k \in 1..Len(e.rs) : Abs(comp[p][k]) <= 3
  IN  Fail(\A i \in 1..Len(e.words) : CloseSeq(e.words[i].y, comp[e.words[i].p], TOL), "word-curve") \cup
      Fail(\A i \in 1..Len(e.sums) : CloseSeq(e.sums[i].y, sumw(e.sums[i].w), TOL), "sum-curve") \cup
      Fail(\A i \in 1..Len(e.zero) : \A k \in 1..Len(e.zero[i]) : e.zero[i][k] = 0, "reference-line") \cup
      (IF e.wantwords THEN Fail(\A p \in words : Cardinality(shown(p)) <= 1, "shown-twice") \cup
                           Fail(\A p \in words : vanishes(p) \/ Cardinality(shown(p)) = 1, "left-out") ELSE {}) \cup
      (IF e.wantsums THEN Fail(\A w \in 1..N : \E i \in 1..Len(e.sums) : e.sums[i].w = w, "sum-missing") \cup
                          Fail(Len(e.sums) = N, "sum-count") ELSE {})
Init == tix \in 1..Len(Traces) /\ lix = 0
Next == /\ lix < Len(Ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET e == Ev[lix + 1] f == IF e.err # "" THEN {"raised"} ELSE Step(e) IN
             IF f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<tix, lix>>
=============================================================================
