----------------------------- MODULE GenOptions -----------------------------
(* Scenarios: every single option value, every pair of options of an       *)
(* optimizer or layer with every pair of values, every Pauli constructor    *)
(* argument.                                                                *)
EXTENDS Options, Json
VARIABLES todo
Out(r) == PrintT("@CASE@" \o ToJson(r))
Singles == \A t \in Targets : \A o \in OptionsOf(t) : \A x \in Pool(t, o) : Out([t |-> t, set |-> <<[o |-> o, x |-> x]>>])
Defaults == \A t \in Targets : Out([t |-> t, set |-> <<>>])
\* boundary values only, so that the number of pairs stays bounded
Edge(t, o) == CASE o = "eta" -> {F(0), F(MILLION), F(MILLION + 1), I(1)}
                [] o = "nsteps" -> {I(1), I(0), F(MILLION)}
                [] o = "tol" -> {F(0), O("inf"), F(-1), O("none")}
                [] o \in Flags -> {B(TRUE), I(1)}
                [] o = "directions" -> {W(<<"X">>), W(<<"XX">>), W(<<"A">>)}
                [] o = "layers" -> {O("layerlist"), O("layertuple")}
                [] o = "circuit" -> {O("nothing"), O("state")}
                [] OTHER -> {}
Pairs == \A t \in Targets : \A o1 \in OptionsOf(t) \ Alone : \A o2 \in OptionsOf(t) \ (Alone \cup {o1}) :
            \A x \in Edge(t, o1) : \A y \in Edge(t, o2) : Out([t |-> t, set |-> <<[o |-> o1, x |-> x], [o |-> o2, x |-> y]>>])
Paulis == /\ \A x \in LetterPool : Out([t |-> "pauli", set |-> <<[o |-> "letter", x |-> x]>>])
          /\ \A x \in SitePool : Out([t |-> "pauli", set |-> <<[o |-> "site", x |-> x]>>])
          /\ \A x \in CoeffPool : Out([t |-> "pauli", set |-> <<[o |-> "coeff", x |-> x]>>])
          /\ \A x \in LetterPool : \A y \in SitePool : Out([t |-> "pauli", set |-> <<[o |-> "letter", x |-> x], [o |-> "site", x |-> y]>>])
          /\ \A x \in LetterPool : \A y \in CoeffPool : Out([t |-> "pauli", set |-> <<[o |-> "letter", x |-> x], [o |-> "coeff", x |-> y]>>])
          /\ \A x \in CoeffPool : \A y \in SitePool : Out([t |-> "pauli", set |-> <<[o |-> "coeff", x |-> x], [o |-> "site", x |-> y]>>])
          /\ \A s \in SitesPool : Out([t |-> "monomial", sites |-> s])
Init == todo = TRUE
Next == todo /\ Defaults /\ Singles /\ Pairs /\ Paulis /\ todo' = FALSE
Spec == Init /\ [][Next]_todo
=============================================================================
