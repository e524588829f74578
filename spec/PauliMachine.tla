---------------------------- MODULE PauliMachine ----------------------------
(***************************************************************************)
(* Symbolic Pauli algebra as a register machine.                           *)
(*                                                                         *)
(* A monomial is [t, c]: t a sequence of <<site, letter>> with increasing  *)
(* sites, c = <<re, im>> a Gaussian integer.  It denotes c times the       *)
(* tensor product of its letters, identity on every other site.            *)
(* A sum is [v, z]: v a function from words (sets of <<site, letter>> with *)
(* letters 1..3) to non-zero Gaussian integers, z whether terms with       *)
(* coefficient zero may be listed.                                         *)
(* The state is [m, s]: registers holding monomials, and holding sums.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CNeg(a) == <<-a[1], -a[2]>>
CConj(a) == <<a[1], -a[2]>>
CZero == <<0, 0>>
IPow(k) == <<(<<1, 0>>), (<<0, 1>>), (<<-1, 0>>), (<<0, -1>>)>>[(k % 4) + 1]

PMul(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = b THEN 0 ELSE 6 - a - b
PPhase(a, b) == IF a = 0 \/ b = 0 \/ a = b THEN 0 ELSE IF <<a, b>> \in {<<1,2>>, <<2,3>>, <<3,1>>} THEN 1 ELSE 3

SitesOf(x) == {x.t[i][1] : i \in 1..Len(x.t)}
LetterAt(x, s) == IF s \in SitesOf(x) THEN x.t[CHOOSE i \in 1..Len(x.t) : x.t[i][1] = s][2] ELSE 0
SortedSites(set) == SetToSortSeq(set, <)
Letters(x) == [i \in 1..Len(x.t) |-> x.t[i][2]]

\* ------------------------------------------------------------- monomials
NewMono(sites, ls, cs) ==
  LET o == SortedSites(Range(sites)) IN
  [t |-> [i \in 1..Len(o) |-> <<o[i], ls[CHOOSE j \in 1..Len(sites) : sites[j] = o[i]]>>],
   c |-> FoldLeft(CMul, <<1, 0>>, cs)]
Mul(x, y) ==
  LET o == SortedSites(SitesOf(x) \cup SitesOf(y))
      ph == FoldLeft(LAMBDA a, s : a + PPhase(LetterAt(x, s), LetterAt(y, s)), 0, o)
  IN  [t |-> [i \in 1..Len(o) |-> <<o[i], PMul(LetterAt(x, o[i]), LetterAt(y, o[i]))>>],
       c |-> CMul(CMul(x.c, y.c), IPow(ph))]
Comm(x, y) == LET p == Mul(x, y) q == Mul(y, x) IN [p EXCEPT !.c = CAdd(p.c, CNeg(q.c))]
Conj(x) == [x EXCEPT !.c = CConj(@)]
CommutesP(x, y) == Comm(x, y).c = CZero
\* what a monomial denotes
WordSet(x) == {<<x.t[i][1], x.t[i][2]>> : i \in {j \in 1..Len(x.t) : x.t[j][2] # 0}}
SameOp(x, y) == x.c = y.c /\ (x.c = CZero \/ WordSet(x) = WordSet(y))

\* ------------------------------------------------------------- the order
LexLess(a, b) == \E i \in 1..(Len(b)) : /\ (\A j \in 1..(i-1) : j <= Len(a) /\ a[j] = b[j])
                                        /\ (i > Len(a) \/ a[i] < b[i])
IsReal(c) == c[2] = 0
Less(x, y) ==
  IF Letters(x) = Letters(y)
  THEN IF IsReal(x.c) # IsReal(y.c) THEN IsReal(y.c) ELSE x.c[1] + x.c[2] < y.c[1] + y.c[2]
  ELSE LexLess(Letters(x), Letters(y))

\* ------------------------------------------- equality, sets and printing
\* Factors are <<site, letter>>.  Monomials compare by their factors and by whether their coefficient is real;
\* monomials with a different number of factors cannot be compared.
Comparable(x, y) == Len(x.t) = Len(y.t)
Equal(x, y) == x.t = y.t /\ IsReal(x.c) = IsReal(y.c)
Class(x) == <<x.t, IsReal(x.c)>>
Distinct(xs) == Cardinality({Class(xs[i]) : i \in 1..Len(xs)})
\* a printed monomial: its coefficient, left out when it is 1, then its factors
\* (coefficients recorded in a unit other than 1 are never 1)
Printed(x, unit) == [c |-> IF x.c = <<1, 0>> /\ ~unit THEN <<>> ELSE <<x.c>>, t |-> x.t]
Texed(x) == [c |-> <<x.c>>, t |-> x.t]

\* ------------------------------------------------------------------ sums
Words(v) == DOMAIN v
At(v, w) == IF w \in DOMAIN v THEN v[w] ELSE CZero
Clean(v) == Restrict(v, {w \in DOMAIN v : v[w] # CZero})
AddV(u, v) == Clean([w \in DOMAIN u \cup DOMAIN v |-> CAdd(At(u, w), At(v, w))])
MonoV(x) == Clean([w \in {WordSet(x)} |-> x.c])
EmptyV == [w \in {} |-> CZero]
NegV(v) == [w \in DOMAIN v |-> CNeg(v[w])]
ScaleV(v, c) == Clean([w \in DOMAIN v |-> CMul(v[w], c)])
AsMono(w, c) == LET o == SortedSites({p[1] : p \in w}) IN
  [t |-> [i \in 1..Len(o) |-> <<o[i], (CHOOSE p \in w : p[1] = o[i])[2]>>], c |-> c]
MulV(u, v) == FoldSet(LAMBDA p, acc : AddV(acc, MonoV(Mul(AsMono(p[1], u[p[1]]), AsMono(p[2], v[p[2]])))), EmptyV, (DOMAIN u) \X (DOMAIN v))

\* ---------------------------------------------------------- the machine
Empty == [m |-> <<>>, s |-> <<>>]
Queries == {"eq", "set", "feq", "print", "tex", "items"}
Apply(st, op) ==
  CASE op.op = "new"  -> [st EXCEPT !.m = Append(@, NewMono(op.sites, op.ls, op.cs))]
    [] op.op = "mul"  -> [st EXCEPT !.m = Append(@, Mul(st.m[op.i], st.m[op.j]))]
    [] op.op = "comm" -> [st EXCEPT !.m = Append(@, Comm(st.m[op.i], st.m[op.j]))]
    [] op.op = "conj" -> [st EXCEPT !.m[op.i] = Conj(@)]
    [] op.op \in {"commutes", "lt", "export"} \cup Queries -> st
    [] op.op = "sum"  -> [st EXCEPT !.s = Append(@, [v |-> FoldLeft(LAMBDA a, i : AddV(a, MonoV(st.m[i])), EmptyV, op.is),
                                                     z |-> \E k \in 1..Len(op.is) : st.m[op.is[k]].c = CZero])]
    [] op.op = "add"  -> [st EXCEPT !.s = Append(@, [v |-> AddV(st.s[op.i].v, st.s[op.j].v), z |-> st.s[op.i].z \/ st.s[op.j].z])]
    [] op.op = "sub"  -> [st EXCEPT !.s = Append(@, [v |-> AddV(st.s[op.i].v, NegV(st.s[op.j].v)), z |-> st.s[op.i].z \/ st.s[op.j].z])]
    [] op.op = "smul" -> [st EXCEPT !.s = Append(@, [v |-> MulV(st.s[op.i].v, st.s[op.j].v), z |-> st.s[op.i].z \/ st.s[op.j].z])]
    [] op.op = "scale" -> [st EXCEPT !.s[op.i] = [v |-> ScaleV(@.v, op.c), z |-> @.z \/ op.c = CZero]]
Answer(st, op) ==
  CASE op.op = "commutes" -> CommutesP(st.m[op.i], st.m[op.j])
    [] op.op = "lt" -> Less(st.m[op.i], st.m[op.j])
    [] OTHER -> TRUE
=============================================================================
