----------------------------- MODULE TracePauli -----------------------------
(* Programs executed on the classes of /repo, checked against PauliMachine: *)
(* after every operation all registers must hold what the machine says.     *)
EXTENDS PauliMachine, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tix, lix, st
Fail(cond, name) == IF cond THEN {} ELSE {name}
\* recorded monomial [tix, c]
WellFormed(x) == \A i \in 1..Len(x.t) : i > 1 => x.t[i-1][1] < x.t[i][1]
MonoOK(x, y) == WellFormed(x) /\ SameOp(x, y)
\* recorded sum: sequence of monomials
SumOK(ts, y) ==
  LET ws == [i \in 1..Len(ts) |-> WordSet(ts[i])] IN
  /\ \A i, j \in 1..Len(ts) : i # j => ws[i] # ws[j]
  /\ y.z \/ \A i \in 1..Len(ts) : ts[i].c # CZero
  /\ \A i \in 1..Len(ts) : ts[i].c = At(y.v, ws[i])
  /\ \A w \in DOMAIN y.v : \E i \in 1..Len(ts) : ws[i] = w
\* queries are decided on the registers as recorded with the answer
R(e, i) == e.m[i][1]
QueryOK(e) ==
  CASE e.o.op = "eq" -> LET x == R(e, e.o.i) y == R(e, e.o.j) IN
         IF Comparable(x, y) THEN /\ ~e.refused /\ e.ans = Equal(x, y) /\ e.ne = ~Equal(x, y) /\ (Equal(x, y) => e.samehash) ELSE e.refused
    [] e.o.op = "feq" -> LET x == R(e, e.o.i).t[e.o.a] y == R(e, e.o.j).t[e.o.b] IN
         e.ans = (x = y) /\ e.ne = (x # y) /\ (x = y => e.samehash /\ e.size = 1) /\ (x # y => e.size = 2)
    [] e.o.op = "set" -> e.size = Distinct([k \in 1..Len(e.o.is) |-> R(e, e.o.is[k])])
                         /\ e.members = [i \in 1..Len(e.m) |-> \E k \in 1..Len(e.o.is) : Equal(R(e, i), R(e, e.o.is[k]))]
    [] e.o.op = "print" -> e.text = Printed(R(e, e.o.i), e.unit) /\ e.bare = R(e, e.o.i).t
    [] e.o.op = "tex" -> e.text = Texed(R(e, e.o.i)) /\ e.bare = R(e, e.o.i).t
    [] e.o.op = "items" -> e.len = Len(R(e, e.o.i).t) /\ e.items = R(e, e.o.i).t
Changed(op) == IF op.op \in {"new", "mul", "comm", "sum", "add", "sub", "smul"} THEN "result" ELSE op.op
Handle(e) ==
  LET n == Apply(st, e.o) IN
  IF e.err # "" THEN [f |-> {"raised"}, n |-> n] ELSE
  [n |-> n,
   f |-> Fail(e.o.op \in {"commutes", "lt"} => e.ans = Answer(st, e.o), e.o.op) \cup
         (IF e.o.op \in Queries THEN Fail(QueryOK(e), e.o.op) ELSE {}) \cup
         Fail(e.o.op = "export" => LET x == st.m[e.o.i] nz == SelectSeq(x.t, LAMBDA p : p[2] # 0) IN
                  e.label = [i \in 1..Len(nz) |-> nz[i][2]] /\ e.lsites = [i \in 1..Len(nz) |-> nz[i][1]], "export") \cup
         Fail(Len(e.m) = Len(n.m) /\ \A i \in 1..Len(n.m) :
                  (e.m[i] # <<>> => MonoOK(e.m[i][1], n.m[i])), "monomial") \cup
         Fail(Len(e.s) = Len(n.s) /\ \A i \in 1..Len(n.s) : (e.s[i] # <<>> => SumOK(e.s[i][1], n.s[i])), "sum")]
Init == tix \in 1..Len(Traces) /\ lix = 0 /\ st = Empty
Next == /\ lix < Len(Traces[tix].ev) /\ lix' = lix + 1 /\ tix' = tix
        /\ LET r == Handle(Traces[tix].ev[lix + 1]) IN
             /\ st' = r.n
             /\ IF r.f = {} THEN TRUE ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(r.f)]))
Spec == Init /\ [][Next]_<<tix, lix, st>>
=============================================================================
