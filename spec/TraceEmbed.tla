----------------------------- MODULE TraceEmbed -----------------------------
(* Recorded embeddings, Hamiltonians, norms, bases and catalogues of /repo. *)
EXTENDS Embed, Fixed, Paulis, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tix, lix
Fail(cond, name) == IF cond THEN {} ELSE {name}

\* ---- C01
Dim(n) == Two(n)
StepEmbed(e) ==
  Fail(/\ Len(e.fre) = Dim(e.n)
       /\ \A x \in 0..(Dim(e.n)-1) : \A y \in 0..(Dim(e.n)-1) :
             /\ e.fre[x+1][y+1] = EntryOf(e.re, e.ws, e.n, x, y)
             /\ e.fim[x+1][y+1] = EntryOf(e.im, e.ws, e.n, x, y), "embedding")
\* an observable is a sequence of factors [ws, name] or [ws, re, im] (entries in units of 1/U)
FactorRe(f, n, x, y) == EntryOf(IF "name" \in DOMAIN f THEN Named[f.name].re ELSE f.re, f.ws, n, x, y)
FactorIm(f, n, x, y) == EntryOf(IF "name" \in DOMAIN f THEN Named[f.name].im ELSE f.im, f.ws, n, x, y)
\* product of factors on disjoint wires: entry by entry over the bits they own
Owned(o) == UNION {Range(o[i].ws) : i \in 1..Len(o)}
LocRe(f, n, x, y) == (IF "name" \in DOMAIN f THEN Named[f.name].re ELSE f.re)[Sub(x, f.ws, n) + 1][Sub(y, f.ws, n) + 1]
LocIm(f, n, x, y) == (IF "name" \in DOMAIN f THEN Named[f.name].im ELSE f.im)[Sub(x, f.ws, n) + 1][Sub(y, f.ws, n) + 1]
\* complex product of entries in units of 1/U, where one factor at a time is 0, +-U or the only one that is neither
MulU(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = U THEN b ELSE IF a = -U THEN -b ELSE IF b = U THEN a ELSE IF b = -U THEN -a
              ELSE (((a \div 1000) * (b \div 1000)))
ObsEntry(o, n, x, y) ==
  IF \E w \in (0..(n-1)) \ Owned(o) : Bit(x, w, n) # Bit(y, w, n) THEN <<0, 0>>
  ELSE FoldLeft(LAMBDA acc, f : << MulU(acc[1], LocRe(f, n, x, y)) - MulU(acc[2], LocIm(f, n, x, y)),
                                   MulU(acc[1], LocIm(f, n, x, y)) + MulU(acc[2], LocRe(f, n, x, y)) >>, <<U, 0>>, o)
\* coefficients in quarters
Quarter(a, c) == (a \div 4) * c + ((a % 4) * c) \div 4
StepHam(e) ==
  Fail(/\ Len(e.fre) = Dim(e.n)
       /\ \A x \in 0..(Dim(e.n)-1) : \A y \in 0..(Dim(e.n)-1) :
            LET s == FoldLeft(LAMBDA acc, i : LET v == ObsEntry(e.obs[i], e.n, x, y) IN
                         <<acc[1] + Quarter(v[1], e.coeffs[i]), acc[2] + Quarter(v[2], e.coeffs[i])>>, <<0, 0>>, [i \in 1..Len(e.obs) |-> i])
            IN  Abs(e.fre[x+1][y+1] - s[1]) <= 3000 /\ Abs(e.fim[x+1][y+1] - s[2]) <= 3000, "hamiltonian")
\* entries in eighths; norm in fixed point
StepNorm(e) ==
  LET q == FoldLeft(LAMBDA a, r : a + FoldLeft(LAMBDA b, z : b + z * z, 0, r), 0, e.re) + FoldLeft(LAMBDA a, r : a + FoldLeft(LAMBDA b, z : b + z * z, 0, r), 0, e.im)
  IN  Fail(e.norm >= 0 /\ Close(Sq(e.norm), q * 1562500, 400), "norm")
StepRefuse(e) == Fail(e.refused, "accepted")

\* ---- C03: a list of operators in phase-permutation form
OpIs(op, w) == /\ Len(op) = Two(Len(w))
               /\ \A x \in 0..(Len(op)-1) : op[x+1] = <<ImageOf(w, x), PhaseOf(w, x)>>
StepBasis(e) ==
  LET lo == IF e.identity THEN 0 ELSE 1
      len == Len(e.names)
      size == FoldLeft(LAMBDA a, q : a * (4 - lo), 1, [q \in 1..e.n |-> q])
  IN  Fail(len = size /\ Len(e.ops) = len, "count") \cup
      Fail(\A i \in 1..len : Len(e.names[i]) = e.n /\ \A q \in 1..Len(e.names[i]) : e.names[i][q] \in lo..3, "letters") \cup
      Fail(Cardinality(Range(e.names)) = len, "duplicate-name") \cup
      Fail(\A i \in 1..Min2(len, Len(e.ops)) : OpIs(e.ops[i], e.names[i]), "operator")
\* catalogue: entries [d, q, op] (d letters, q qubits)
Increasing(q, n) == \A j \in 1..Len(q) : q[j] \in 0..(n-1) /\ (j > 1 => q[j-1] < q[j])
Binom(n, k) == IF k > n THEN 0 ELSE IF k = 1 THEN n ELSE IF k = 2 THEN (n * (n-1)) \div 2 ELSE (n * (n-1) * (n-2)) \div 6
StepCatalogue(e) ==
  LET keys == {<<e.entries[i].d, e.entries[i].q>> : i \in 1..Len(e.entries)}
      want == FoldLeft(LAMBDA a, d : a + Binom(e.n, Len(d)), 0, e.dirs)
  IN  Fail(\A i \in 1..Len(e.entries) : LET x == e.entries[i] IN
              /\ x.d \in Range(e.dirs) /\ Len(x.q) = Len(x.d) /\ Increasing(x.q, e.n), "foreign-entry") \cup
      Fail(Cardinality(keys) = Len(e.entries) /\ Len(e.entries) = want, "incomplete") \cup
      Fail(\A i \in 1..Len(e.entries) : LET x == e.entries[i] IN
              Len(x.q) = Len(x.d) /\ Increasing(x.q, e.n) => OpIs(x.op, Lift(x.d, x.q, e.n)), "operator") \cup
      Fail(\A k \in 1..3 : LET here == {d \in Range(e.dirs) : Len(d) = k} IN
              here = (IF e.su[k] THEN [1..k -> 1..3] ELSE {}), "directions")
\* entries that random draws have added: on distinct qubits in the order drawn
StepDrawn(e) ==
  Fail(\A i \in 1..Len(e.drawn) : \E j \in 1..Len(e.entries) : e.entries[j].d = e.drawn[i].d /\ e.entries[j].q = e.drawn[i].q, "not-filed") \cup
  Fail(\A i \in 1..Len(e.entries) : LET x == e.entries[i] IN
          /\ Len(x.q) = Len(x.d) /\ Range(x.q) \subseteq 0..(e.n-1) /\ Cardinality(Range(x.q)) = Len(x.q)
          /\ OpIs(x.op, Lift(x.d, x.q, e.n)), "operator")

Handle(e) == IF e.err # "" THEN {"raised"} ELSE
  CASE e.a = "embed" -> StepEmbed(e) [] e.a = "ham" -> StepHam(e) [] e.a = "norm" -> StepNorm(e) [] e.a = "refuse" -> StepRefuse(e)
    [] e.a = "basis" -> StepBasis(e) [] e.a = "catalogue" -> StepCatalogue(e) [] e.a = "drawn" -> StepDrawn(e)
Init == tix \in 1..Len(Traces) /\ lix = 0
Next == /\ lix < Len(Traces[tix].ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET f == Handle(Traces[tix].ev[lix + 1]) IN
             IF f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(f)]))
Spec == Init /\ [][Next]_<<tix, lix>>
=============================================================================
