------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* Which options are accepted.  A value is a record: its type k, and, for  *)
(* numbers, v in millionths (floats) or units (integers); nan, inf and     *)
(* -inf have types of their own.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
F(v) == [k |-> "float", v |-> v]
N64(v) == [k |-> "np64", v |-> v]          \* a numpy double, which is a float
I(v) == [k |-> "int", v |-> v]
B(v) == [k |-> "bool", b |-> v]
S(v) == [k |-> "str", s |-> v]
W(v) == [k |-> "words", w |-> v]           \* a list of strings
O(v) == [k |-> v]                          \* nan, inf, ninf, none, emptylist, dict, ...
\* floats that are no multiples of a millionth: within [0, 1], above 1, below 0
Within == {"third", "third64", "tiny", "belowone", "negzero", "least"}
Above == {"aboveone", "huge"}
Below == {"belowzero", "belowzero64"}
IsFloat(x) == x.k \in {"float", "np64"}
MILLION == 1000000

(* option kinds: what the documentation admits *)
OkEta(x) == (IsFloat(x) /\ x.v >= 0 /\ x.v <= MILLION) \/ x.k \in Within
OkSteps(x) == x.k = "int" /\ x.v >= 1
OkTol(x) == (IsFloat(x) /\ x.v >= 0) \/ x.k \in {"inf"} \cup Within \cup Above
OkTolNone(x) == OkTol(x) \/ x.k = "none"
OkFlag(x) == x.k = "bool"
OkLocality(x) == x.k = "int" /\ x.v \in {1, 2}
Words1 == {"X", "Y", "Z"}
Words2 == {a \o b : a \in Words1, b \in Words1}
OkWords(x, words) == x.k = "none" \/ (x.k = "words" /\ \A i \in 1..Len(x.w) : x.w[i] \in words)
OkLayers(x) == x.k = "layerlist"
OkOther(x) == x.k = "proper"

Targets == {"ps", "exact", "approx", "local1", "local2", "custom", "stochastic", "squared", "adapt", "su8", "zassenhaus", "zassenhaus2"}
Optimizers == {"ps", "exact", "approx"}
LayerKinds == Targets \ Optimizers
(* option -> kind *)
OptionsOf(t) ==
  CASE t = "ps" -> {"eta", "nsteps", "tol", "return_state", "return_params", "circuit"}
    [] t = "exact" -> {"eta", "nsteps", "tol", "return_state", "perturbation", "return_perturbations", "return_unitary", "circuit"}
    [] t = "approx" -> {"eta", "nsteps", "tol", "return_state", "return_omegas", "return_unitary", "return_gates", "perturb",
                        "return_perturbations", "return_zassenhaus", "layers", "circuit"}
    [] t \in {"local1", "local2"} -> {"eta", "locality", "directions", "trotterize", "unitary_error_check", "size"}
    [] t = "custom" -> {"eta", "directions", "trotterize", "unitary_error_check"}
    [] t \in {"su8", "zassenhaus"} -> {"eta", "trotterize", "unitary_error_check", "size"}
    [] OTHER -> {"eta", "trotterize", "unitary_error_check"}
Flags == {"return_state", "return_params", "perturbation", "return_perturbations", "return_unitary", "return_omegas", "return_gates",
          "perturb", "return_zassenhaus", "trotterize", "unitary_error_check"}
Accepts(t, opt, x) ==
  CASE opt = "eta" -> OkEta(x)
    [] opt = "nsteps" -> OkSteps(x)
    [] opt = "tol" -> IF t = "approx" THEN OkTolNone(x) ELSE OkTol(x)
    [] opt \in Flags -> OkFlag(x)
    [] opt = "locality" -> OkLocality(x)
    [] opt = "directions" -> OkWords(x, CASE t = "local1" -> Words1 [] t = "local2" -> Words2 [] OTHER -> Words1 \cup Words2)
    [] opt = "size" -> CASE t = "local1" -> x.v >= 1 [] t = "local2" -> x.v % 2 = 0 [] OTHER -> x.v >= 3
    [] opt = "layers" -> OkLayers(x)
    [] opt = "circuit" -> IF t = "ps" THEN x.k = "nothing" ELSE x.k = "state"
(* the values tried; those whose status the documentation leaves open (True as a number, single-precision floats) are not *)
Junk == {S("1"), S("0.1"), O("none"), O("emptylist"), O("dict"), O("complex")}
Fine == {O(x) : x \in Within \cup Above \cup Below}
Pool(t, opt) ==
  CASE opt = "eta" -> {F(0), F(1), F(250000), F(999999), F(MILLION), N64(500000), N64(0), F(MILLION + 1), F(-1), F(-100000), F(1500000), N64(-1), N64(MILLION + 1),
                       I(0), I(1), B(TRUE), O("nan"), O("inf"), O("ninf")} \cup Junk \cup Fine
    [] opt = "nsteps" -> {I(1), I(2), I(3), I(4), I(5), I(7), I(12), I(30), I(1000000000), I(-100), I(0), I(-1), I(-5), F(MILLION), F(2 * MILLION), F(500000), O("nan"), O("inf")} \cup Junk
    [] opt = "tol" -> {F(0), F(1), F(1000), N64(1000), F(5 * MILLION), O("inf"), F(-1), F(-MILLION), N64(-1), I(0), I(1), B(FALSE), O("nan"), O("ninf")} \cup Junk \cup Fine
    [] opt \in Flags -> {B(TRUE), B(FALSE), I(0), I(1), F(0), F(MILLION), S("True"), S(""), O("none"), O("emptylist")}
    [] opt = "locality" -> {I(1), I(2), I(0), I(3), I(4), I(-1), S("1"), O("none"), F(1500000)}
    [] opt = "directions" -> {O("none"), W(<<"X">>), W(<<"Y", "Z">>), W(<<"XY">>), W(<<"ZZ", "XX">>), W(<<"X", "XX">>), W(<<"ZY", "Y">>), W(<<"A">>), W(<<"x">>), W(<<"XXX">>),
                              W(<<"I">>), W(<<"IX">>), W(<<"XI">>), W(<<"X", "Q">>), W(<<"XX", "QQ">>), W(<<"">>), W(<<"XYZ", "XX">>), W(<<"zz">>)} \cup
                             {W(<<a>>) : a \in Words1 \cup Words2}
    [] opt = "size" -> {I(1), I(2), I(3), I(4)}
    [] opt = "layers" -> {O("layerlist"), O("layertuple"), O("onelayer"), O("none"), O("layerclasses"), O("mixedlist"), O("dict"), S("layers"), O("callables")}
    [] opt = "circuit" -> {O("nothing"), O("state"), O("expval"), O("probs")}
\* a register size changes what the layer is built on, a locality which layer it is: tried on their own
Alone == {"size", "locality"}

(* Pauli letters, sites, coefficients, monomials *)
OkLetter(x) == (x.k = "int" /\ x.v \in 0..3) \/ (x.k = "str" /\ x.s \in {"I", "X", "Y", "Z"})
OkSite(x) == x.k = "int" /\ x.v >= 0
OkCoeff(x) == IsFloat(x) \/ x.k \in Within \cup Above \cup Below \cup {"complex", "np128", "symbol", "product", "power"}
LetterPool == {I(v) : v \in -2..6} \cup {S(v) : v \in {"I", "X", "Y", "Z", "x", "XX", "", "A", "0"}} \cup {O("none"), F(MILLION), F(1500000), O("emptylist"), O("complex")}
SitePool == {I(v) : v \in {-7, -1, 0, 1, 5, 1000}} \cup {F(0), F(MILLION), S("0"), S("a"), O("none"), O("emptylist"), O("complex")}
CoeffPool == Fine \cup {F(v) : v \in {-1500000, 0, 1, MILLION}} \cup {N64(3), O("complex"), O("np128"), O("symbol"), O("product"), O("power"), S("1"), S("x"), O("none"), O("emptylist"), O("dict")}
SitesPool == UNION {[1..n -> 0..3] : n \in 1..4}
Injective(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
=============================================================================
