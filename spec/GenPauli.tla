------------------------------ MODULE GenPauli ------------------------------
(***************************************************************************)
(* Programs for the Pauli register machine.  KIND = "mono": monomials on   *)
(* arbitrary sites.  KIND = "sum": sums of monomials that list the same    *)
(* sites (identities included), as PauliSum requires.  KIND = "cmp": few   *)
(* words, so that equal monomials are common, and the queries.             *)
(***************************************************************************)
EXTENDS PauliMachine, Json
CONSTANTS KIND, LEN, MAXSITE
VARIABLES st, hist, base

Coefs == {<<1, 0>>, <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<-3, 0>>, <<0, 1>>, <<0, -2>>, <<1, 1>>, <<2, -1>>}
Small(c) == c[1] \in -2000..2000 /\ c[2] \in -2000..2000
SmallState(s) == /\ \A i \in 1..Len(s.m) : Small(s.m[i].c)
                 /\ \A i \in 1..Len(s.s) : (\A w \in DOMAIN s.s[i].v : Small(s.s[i].v[w])) /\ Cardinality(DOMAIN s.s[i].v) <= 20
RandSites == IF KIND = "sum" THEN base
             ELSE IF KIND = "cmp" THEN RandomElement({<<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<2, 1>>, <<12, 2, 1>>, <<0, 1, 2>>})
             ELSE LET k == RandomElement(1..3) IN RandomElement({q \in [1..k -> 0..MAXSITE] : Cardinality(Range(q)) = k})
NewOp == LET q == RandSites IN
  [op |-> "new", sites |-> q, ls |-> [i \in 1..Len(q) |-> RandomElement(IF KIND = "cmp" /\ RandomElement(1..3) > 1 THEN 1..2 ELSE 0..3)],
   cs |-> [i \in 1..Len(q) |-> IF RandomElement(1..2) = 1 THEN <<1, 0>> ELSE IF KIND = "cmp" /\ RandomElement(1..12) = 1 THEN <<0, 0>> ELSE RandomElement(Coefs)]]
M == Len(st.m)
T == Len(st.s)
Queried == {[op |-> o, i |-> RandomElement(1..M), j |-> RandomElement(1..M)] : o \in {"eq"}} \cup
           {[op |-> "eq", i |-> RandomElement(1..M), j |-> M]} \cup
           {LET i == RandomElement(1..M) j == RandomElement(1..M) IN
              [op |-> "feq", i |-> i, j |-> j, a |-> RandomElement(1..Len(st.m[i].t)), b |-> RandomElement(1..Len(st.m[j].t))] : x \in {1}} \cup
           {[op |-> "set", is |-> [k \in 1..RandomElement(1..6) |-> RandomElement(1..M)]]} \cup
           {[op |-> o, i |-> RandomElement(1..M)] : o \in {"print", "tex", "items"}}
Ops == (IF KIND = "cmp" /\ M > 0 THEN Queried ELSE {}) \cup {NewOp : k \in 1..2} \cup
       (IF M = 0 THEN {} ELSE
         {[op |-> o, i |-> RandomElement(1..M), j |-> RandomElement(1..M)] : o \in {"mul", "comm", "commutes", "lt"}} \cup
         {[op |-> o, i |-> RandomElement(1..M)] : o \in {"conj", "export"}} ) \cup
       (IF KIND # "sum" \/ M = 0 THEN {} ELSE
         {[op |-> "sum", is |-> [k \in 1..RandomElement(1..4) |-> RandomElement(1..M)]] : x \in 1..2} \cup
         (IF T = 0 THEN {} ELSE
           {[op |-> o, i |-> RandomElement(1..T), j |-> RandomElement(1..T)] : o \in {"add", "sub", "smul"}} \cup
           {[op |-> "scale", i |-> RandomElement(1..T), c |-> RandomElement(Coefs \cup {<<0, 0>>})]}))
Init == st = Empty /\ hist = <<>> /\ base \in {<<0>>, <<0, 1>>, <<1, 0, 2>>, <<3, 1>>, <<0, 1, 2, 3>>}
Done == /\ Len(hist) = LEN /\ PrintT("@CASE@" \o ToJson([prog |-> hist]))
        /\ hist' = Append(hist, [op |-> "done"]) /\ UNCHANGED <<st, base>>
Step == /\ Len(hist) < LEN
        /\ \E op \in Ops : LET n == Apply(st, op) IN
             /\ SmallState(n) /\ Len(n.m) <= 9 /\ Len(n.s) <= 6
             /\ st' = n /\ hist' = Append(hist, op) /\ base' = base
Next == Step \/ Done
Spec == Init /\ [][Next]_<<st, hist, base>>
=============================================================================
