----------------------------- MODULE TraceLayers -----------------------------
(***************************************************************************)
(* Recorded calls of layers and optimizer steps of /repo, checked against  *)
(* the actions of module Layers.  One line of the trace file is one trace: *)
(* a sequence of events.  Each event carries the projected state before    *)
(* and after the call, so a deviation is reported at the event where it    *)
(* happens and checking continues behind it.  What the interface does not  *)
(* show (which direction an earlier call used) is inferred: `h' holds      *)
(* every hidden state compatible with the trace so far.                    *)
(***************************************************************************)
EXTENDS Layers, ZassOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
TOL == 2000          \* 2e-5
FINE == 200          \* 2e-6
VARIABLES tix, lix, hs

H0 == [prev |-> {}, phase |-> "su4", cnt |-> 0, A |-> {}, th |-> 0, used |-> {}, left |-> {}, hyps |-> {<<>>}, skip |-> FALSE]

Fail(cond, name) == IF cond THEN {} ELSE {name}
Res(f, hh) == [fail |-> f, h |-> hh]

\* ---- V = outgoing * incoming^-1 as a list of <<pos, re, im>> (non-zero Pauli coefficients)
VPos(e) == {e.v[i][1] : i \in 1..Len(e.v)} \ {1}
VAt(e, p) == IF \E i \in 1..Len(e.v) : e.v[i][1] = p THEN e.v[CHOOSE i \in 1..Len(e.v) : e.v[i][1] = p] ELSE <<p, 0, 0>>
Mod2(v) == Sq(v[2]) + Sq(v[3])
\* cos and sin of the angle x of exp(-i x/2 P), independent of the global phase
VCos(e, p) == Mod2(VAt(e, 1)) - Mod2(VAt(e, p))
VSin(e, p) == LET a == VAt(e, 1) b == VAt(e, p) IN 2 * (Mul(a[3], b[2]) - Mul(a[2], b[3]))
IsRotation(e, p) ==   \* V is a rotation about p, up to a phase
  LET a == VAt(e, 1) b == VAt(e, p) IN
  /\ Close(Mod2(a) + Mod2(b), S, TOL)
  /\ Close(Mul(a[2], b[2]) + Mul(a[3], b[3]), 0, TOL)

\* ------------------------------------------------------------- gradients
StepGrad(e) ==
  Res(Fail(e.keys, "keys") \cup
      Fail(\A k \in 1..D4 : Close(e.g[k], DivInt(TotalGrad(e.r, k, e.obs), DIM), FINE), "component"), hs)

\* ------------------------------------------- direction-restricted layers
\* e.q0, e.q1: images of a random input state under the unitary before and after (<<>>: not recorded)
Whole(e, after(_)) == Fail(e.q0 = <<>> \/ CloseVec(e.q1, after(e.q0), TOL), "whole-unitary")
StepLocal(e) ==
  LET step(x) == LocalStep(e.r, x, e.k, e.dirs, e.trot, e.eta, e.obs) IN
  Res(Fail(CloseVec(e.r1, step(e.r), TOL), "local-step") \cup Whole(e, step), hs)
StepCustom(e) ==
  LET step(x) == CustomStep(e.r, x, e.dirs, e.trot, e.eta, e.obs) IN
  Res(Fail(CloseVec(e.r1, step(e.r), TOL), "custom-step") \cup Whole(e, step), hs)

\* -------------------------------------------------------- exact optimizer
StepExact(e) ==
  Res(Fail(CloseVec(e.r1, ExactStep(e.r, e.obs, e.eta), TOL), "exact-step") \cup
      Whole(e, LAMBDA x : ExactStepOn(e.r, x, e.obs, e.eta)) \cup
      Fail(Close(e.c0, Cost(e.r, e.obs), FINE) /\ Close(e.c1, Cost(e.r1, e.obs), FINE), "cost") \cup
      Fail(Len(e.obs) = 1 /\ Len(e.obs[1]) = 1 => e.c1 <= e.c0 + 20, "monotone"), hs)
\* shift rule: matrix H = i [rho, O]; hc = its Pauli coefficients times 2^N (real for a Hermitian matrix)
StepComm(e) ==
  Res(Fail(\A k \in 1..D4 : Close(e.hc[k],
        2 * FoldLeft(LAMBDA acc, w : LET m == Prd(w[1], k) IN acc + Sgn(w[1], m) * Mul(w[2], e.r[m]), 0, e.obs[1]), TOL), "commutator") \cup
      Fail(e.herm, "hermitian"), hs)

\* ----------------------------------------------------- line-search layers
CandsOf(e) == (IF e.su[1] THEN CAT1 ELSE <<>>) \o (IF e.su[2] THEN CAT2 ELSE <<>>) \o (IF e.su[3] THEN CAT3 ELSE <<>>)
Without(c, p) == SelectSeq(c, LAMBDA q : q # p)
\* positions the call may have used, given that it excluded `x' (0: nothing)
LineUsed(e, x) ==
  LET best == Steepest(e.r, Without(CandsOf(e), x), e.obs, FINE)
      vis  == VPos(e)
      c1   == Cost(e.r1, e.obs)
  IN  {p \in best : vis \subseteq {p} /\ IsRotation(e, p) /\ IsLineMin(e.r, p, e.obs, c1, FINE) /\ IsStationary(e.r1, p, e.obs, FINE)}
LineState(e, p) == CloseVec(e.r1, RotCS(e.r, p, VCos(e, p), VSin(e, p)), TOL)
StepLine(e) ==
  LET excl == IF e.mem THEN (IF hs.prev = {} THEN {0} ELSE hs.prev) ELSE {0}
      used == UNION {LineUsed(e, x) : x \in excl}
      best == UNION {Steepest(e.r, Without(CandsOf(e), x), e.obs, FINE) : x \in excl}
      vis  == VPos(e)
      f == Fail(Cardinality(vis) <= 1 /\ (\A p \in vis : IsRotation(e, p)), "one-rotation") \cup
           Fail(vis \subseteq best, "steepest") \cup
           Fail(used # {} \/ Cardinality(vis) > 1 \/ ~(vis \subseteq best), "optimal-angle") \cup
           Fail(Cost(e.r1, e.obs) <= Cost(e.r, e.obs) + FINE, "cost-increased") \cup
           Fail(\A p \in used : LineState(e, p), "state")
      np == IF used # {} THEN used ELSE IF vis # {} THEN vis ELSE best
  IN  Res(f, [hs EXCEPT !.prev = IF e.mem THEN np ELSE {}])

\* the line search itself, along a given word, with the angle it reports
StepRoto(e) ==
  LET cs == CosSin(e.th) c1 == Cost(e.r1, e.obs) IN
  Res(Fail(VPos(e) \subseteq {e.p} /\ IsRotation(e, e.p), "one-rotation") \cup
      Fail(Close(cs[1], VCos(e, e.p), TOL) /\ Close(cs[2], VSin(e, e.p), TOL), "reported-angle") \cup
      Fail(IsLineMin(e.r, e.p, e.obs, c1, FINE) /\ IsStationary(e.r1, e.p, e.obs, FINE), "optimal-angle") \cup
      Fail(c1 <= Cost(e.r, e.obs) + FINE, "cost-increased") \cup
      Fail(LineState(e, e.p), "state"), hs)

\* ---------------------------------------------------------------- sampler
StepDraw(e) ==
  LET left == IF hs.skip THEN hs.left ELSE DirSet(e.su2)
      ok == DrawOK(hs.used, left, e.su2, e.d, e.qs)
      fset == Fail(ok, "draw") \cup
              Fail(Range(e.qs) \subseteq DrawFree(hs.used) , "qubit-reused") \cup
              Fail(e.d \in DrawPool(hs.used, left, e.su2), "direction-reused")
  IN  Res(fset, [hs EXCEPT !.skip = TRUE,
                          !.used = IF ok THEN DrawUsed(hs.used, e.qs) ELSE DrawUsed(hs.used, e.qs) \cap Sites,
                          !.left = DrawLeft(hs.used, left, e.su2, e.d)])

\* a stochastic layer call that drew d on qs
StochPos(e) == Pos(Lift(e.d, e.qs, N))
StochAngle(e) == Sum([j \in 1..Len(e.obs) |-> GenCoeff(e.r, StochPos(e), e.obs[j], e.eta)])
StepStoch(e) ==
  LET dr == StepDraw(e) IN
  Res(dr.fail \cup Fail(CloseVec(e.r1, Rot(e.r, StochPos(e), StochAngle(e)), TOL), "stochastic-step")
              \cup Fail(VPos(e) \subseteq {StochPos(e)} /\ IsRotation(e, StochPos(e)), "one-direction")
              \cup (LET cs == CosSin(2 * StochAngle(e)) IN
                    Fail(Close(cs[1], VCos(e, StochPos(e)), TOL) /\ Close(cs[2], VSin(e, StochPos(e)), TOL), "angle")), dr.h)

\* ------------------------------------------------------------- Zassenhaus
Overlap(p, q) == Cardinality(Support(W[p]) \cap Support(W[q])) = 1
ZCands(A) == {b \in Range(CAT2) : Overlap(A, b) /\ Sgn(A, b) # 0}
ThAbs(x) == Abs(x)
MILLI == 100000         \* 1e-3
ZNext(e, ph) == ZAfter(e.ratio, ph, hs.cnt)
StepZ4(e) ==
  LET best == Steepest(e.r, CAT2, e.obs, FINE)
      vis == VPos(e)
      c1 == Cost(e.r1, e.obs)
      used == {p \in best : vis \subseteq {p} /\ IsRotation(e, p) /\ IsLineMin(e.r, p, e.obs, c1, FINE) /\ IsStationary(e.r1, p, e.obs, FINE)}
      p1 == CHOOSE p \in used : TRUE
      cs == CosSin(e.th)
      f == Fail(Cardinality(vis) <= 1, "one-rotation") \cup Fail(vis \subseteq best, "steepest") \cup
           Fail(used # {}, "optimal-angle") \cup
           Fail(c1 <= Cost(e.r, e.obs) + FINE, "cost-increased") \cup
           Fail(used # {} => /\ e.th >= -((3 * PI) \div 2) - TOL /\ e.th <= (PI \div 2) + TOL
                             /\ Close(cs[1], VCos(e, p1), TOL)
                             /\ Close(cs[2], VSin(e, p1), TOL), "witness")
  IN  [fail |-> f, A |-> IF used # {} THEN used ELSE IF vis # {} THEN vis ELSE best]
\* may gate b follow gate a, with the recorded outgoing state?
ZGate(e, a, b) ==
  LET ab == Prd(a, b)
      gab == TotalGrad(e.r, ab, e.obs)
      rhs == -(Sgn(a, b) * DivInt(Mul(e.eta, gab), DIM))
      cs == CosSin(2 * e.x)
      sharp == Abs(hs.th) >= S \div 100 /\ Abs(e.x) <= 3 * S
  IN  /\ IsRotation(e, b)
      /\ VPos(e) \subseteq {b}
      /\ Abs(gab) >= MILLI - FINE
      /\ sharp => Close(Mul(e.x, hs.th), rhs, FINE) /\ Close(cs[1], VCos(e, b), TOL) /\ Close(cs[2], VSin(e, b), TOL)
StepZ8(e) ==
  LET vis == VPos(e)
      gates == {<<a, b>> \in hs.A \X Range(CAT2) : b \in ZCands(a) /\ (vis = {} \/ vis = {b}) /\ ZGate(e, a, b)}
      must == \A a \in hs.A : \E b \in ZCands(a) :
                 /\ Abs(TotalGrad(e.r, Prd(a, b), e.obs)) >= MILLI + FINE
                 /\ Abs(TotalGrad(e.r, b, e.obs)) >= FINE
      f == IF vis = {} THEN Fail(~must \/ gates # {} \/ Abs(hs.th) < S \div 1000, "no-gate")
           ELSE Fail(Cardinality(vis) = 1, "one-rotation") \cup
                Fail(\E a \in hs.A : vis \subseteq ZCands(a), "commutator-gate") \cup
                Fail(gates # {}, "commutator-angle")
  IN  [fail |-> f, A |-> IF vis = {} THEN hs.A \cup {g[2] : g \in gates} ELSE vis]
StepZass(e) ==
  LET ph == hs.phase
      z == IF ph = "su4" THEN StepZ4(e) ELSE StepZ8(e)
      nx == ZNext(e, ph)
  IN  Res(z.fail \cup Fail(e.phase \in {"", ph}, "phase"),
          [hs EXCEPT !.phase = nx.phase, !.cnt = nx.cnt, !.A = z.A, !.th = IF ph = "su4" THEN e.th ELSE hs.th])

\* --------------------------------------------------------- commuting mode
GatePos(g) == Pos(Lift(g.d, g.q, N))
RotGates(r, gs, ps) == FoldLeft(LAMBDA acc, i : Rot(acc, GatePos(gs[i]), ps[i] \div 2), r, [i \in 1..Len(gs) |-> i])
StepCommute(e) ==
  LET gs == e.gates
      excl == IF hs.prev = {} THEN {0} ELSE hs.prev
      wf == /\ \A i \in 1..Len(gs) : /\ Len(gs[i].q) = Len(gs[i].d)
                                     /\ Range(gs[i].q) \subseteq Sites
                                     /\ Cardinality(Range(gs[i].q)) = Len(gs[i].q)
                                     /\ \A j \in 1..Len(gs[i].d) : gs[i].d[j] \in 1..3
      dis == \A i, j \in 1..Len(gs) : i # j => Range(gs[i].q) \cap Range(gs[j].q) = {}
      lrg == \E x \in excl : LET cands == Without(CAT12, x)
                                 mx == MaxGrad(e.r, cands, e.obs)
                             IN  \A i \in 1..Len(gs) : GatePos(gs[i]) \in Range(cands) /\
                                     Abs(TotalGrad(e.r, GatePos(gs[i]), e.obs)) >= mx - MILLI - (mx \div 100000) - FINE
      f == IF ~wf THEN {"gates-malformed"} ELSE
           Fail(gs # <<>>, "no-gate") \cup Fail(dis, "overlap") \cup
           Fail(\A i \in 1..Len(gs) : gs[i].d = gs[1].d, "direction-differs") \cup
           Fail(lrg, "not-steepest") \cup
           Fail(e.np = Len(gs), "parameter-count") \cup
           Fail([i \in 1..Len(gs) |-> gs[i].x] = e.last, "reported-angle") \cup
           (IF e.np = Len(gs) /\ Len(e.last) = Len(gs) THEN
             Fail(CloseVec(e.r1, RotGates(e.r, gs, e.last), TOL), "applied-gates") \cup
             Whole(e, LAMBDA x : RotGates(x, gs, e.last)) \cup
             Fail(\A k \in 1..Len(e.probe) : CloseVec(e.probe[k].r, RotGates(e.r, gs, e.probe[k].x), TOL), "handed-circuit")
            ELSE {})
  IN  Res(f, hs)

\* ---------------------------------------------------------- adaptive layer
Plus == TLCEval([k \in 1..D4 |-> IF \A q \in 1..N : W[k][q] \in {0, 1} THEN S ELSE 0])
\* gates of a layer <<dir, kind>>: sequence of <<position, parameter index>>
Pairs(first) == SelectSeq([i \in 1..N |-> i - 1], LAMBDA i : i >= first /\ i + 1 < N /\ (i - first) % 2 = 0)
LayerGates(ly) ==
  LET d == ly[1] IN
  CASE ly[2] = "single" -> [i \in 1..N |-> <<Pos(Lift(d, <<i-1>>, N)), i>>]
    [] ly[2] = "even" -> [i \in 1..Len(Pairs(0)) |-> <<Pos(Lift(d, <<Pairs(0)[i], Pairs(0)[i] + 1>>, N)), i>>]
    [] ly[2] = "odd" -> [i \in 1..Len(Pairs(1)) |-> <<Pos(Lift(d, <<Pairs(1)[i], Pairs(1)[i] + 1>>, N)), i>>]
                        \o << <<Pos(Lift(d, <<0, N-1>>, N)), N>> >>
AllLayers == {<<d, "single">> : d \in Range(Dirs(1))} \cup {<<d, k>> : d \in Range(Dirs(2)), k \in {"even", "odd"}}
LayerSum(r, ly, obsl) == Sum([i \in 1..Len(LayerGates(ly)) |-> Abs(TotalGrad(r, LayerGates(ly)[i][1], obsl))])
AdaptOn(x, lys, ps) ==
  FoldLeft(LAMBDA acc, j : FoldLeft(LAMBDA a2, g : Rot(a2, g[1], ps[j][g[2]] \div 2), acc, LayerGates(lys[j])),
           x, [j \in 1..Len(lys) |-> j])
AdaptState(lys, ps) == AdaptOn(Plus, lys, ps)
ShapeOK(ps, m) == Len(ps) = m /\ \A j \in 1..m : Len(ps[j]) = N
SameParams(a, b) == /\ Len(a) = Len(b)
                    /\ \A j \in 1..Len(a) : Len(a[j]) = Len(b[j]) /\ \A i \in 1..Len(a[j]) : Close(a[j][i], b[j][i], 4)
StepAdapt(e) ==
  LET m == Len(e.pin) + 1
      sums == TLCEval([ly \in AllLayers |-> LayerSum(e.r, ly, e.obs)])
      cand(hyp) == LET al == {ly \in AllLayers : hyp = <<>> \/ ly[1] # hyp[Len(hyp)][1]}
                       mx == CHOOSE x \in {sums[ly] : ly \in al} : \A ly \in al : sums[ly] <= x
                   IN  {ly \in al : sums[ly] >= mx - FINE}
      ext == UNION {{Append(hyp, ly) : ly \in cand(hyp)} : hyp \in hs.hyps}
      shape == ShapeOK(e.handed, m) /\ ShapeOK(e.out, m) /\ \A k \in 1..Len(e.probe) : ShapeOK(e.probe[k].x, m)
      good == {x \in ext : \A k \in 1..Len(e.probe) : CloseVec(e.probe[k].r, AdaptState(x, e.probe[k].x), TOL)}
      anyly == {x \in UNION {{Append(hyp, ly) : ly \in AllLayers} : hyp \in hs.hyps} :
                   \A k \in 1..Len(e.probe) : CloseVec(e.probe[k].r, AdaptState(x, e.probe[k].x), TOL)}
      new10 == [i \in 1..N |-> S \div 10]
      f == IF ~shape THEN {"parameter-shape"} ELSE
           Fail(SameParams(e.handed, Append(e.pin, new10)), "handed-parameters") \cup
           Fail(SameParams(e.out, e.last), "returned-parameters") \cup
           (IF good = {} THEN (IF anyly # {} THEN {"not-steepest-layer"} ELSE {"circuit"})
            ELSE Fail(\E x \in good : CloseVec(e.r1, AdaptState(x, e.last), TOL), "returned-unitary") \cup
                 \* q0: the random input state behind the Hadamard gates
                 Fail(e.q0 = <<>> \/ \E x \in good : CloseVec(e.q1, AdaptOn(e.q0, x, e.last), TOL), "whole-unitary"))
  IN  Res(f, [hs EXCEPT !.hyps = IF ~shape THEN hs.hyps ELSE IF good # {} THEN good ELSE IF anyly # {} THEN anyly ELSE ext])

\* --------------------------------------------------------------- unitarity
\* e.re, e.im: rows of the matrix, entries in fixed point
Dot(e, i, j) ==  \* sum_k U_ik conj(U_jk)
  LET n == Len(e.re) IN
  << Sum([k \in 1..n |-> Mul(e.re[i][k], e.re[j][k]) + Mul(e.im[i][k], e.im[j][k])]),
     Sum([k \in 1..n |-> Mul(e.im[i][k], e.re[j][k]) - Mul(e.re[i][k], e.im[j][k])]) >>
StepUnit(e) ==
  LET n == Len(e.re) IN
  Res(Fail(\A i \in 1..n : \A j \in i..n : LET d == Dot(e, i, j) IN
             Close(d[1], IF i = j THEN S ELSE 0, 40) /\ Close(d[2], 0, 40), "not-unitary") \cup
      Fail(e.uerr <= e.lim, "unitarity-lost"), hs)
\* closest unitary U of a matrix M: U unitary and U^dag M Hermitian positive semidefinite; recorded as
\* the polar factor p = U^dag M (rows) and its eigenvalue witness (smallest eigenvalue)
StepPolar(e) ==
  LET n == Len(e.re) IN
  Res(StepUnit(e).fail \cup
      Fail(\A i \in 1..n : \A j \in 1..n : Close(e.pre[i][j], e.pre[j][i], TOL) /\ Close(e.pim[i][j], -e.pim[j][i], TOL), "not-polar") \cup
      Fail(e.mineig >= -TOL, "not-closest"), hs)
\* the test itself; uerr is max |U U^dag - 1| in units of 1e-10; rounding noise is not an error, 1e-7 is one
StepIsUnit(e) == Res(Fail(e.says \/ e.uerr > 10, "false-error") \cup Fail(~e.says \/ e.uerr < 1000, "error-unnoticed"), hs)
\* two states that must be equal
StepSame(e) == Res(Fail(CloseVec(e.r, e.r1, TOL), e.what), hs)

\* ------------------------------------------------------------------ driver
Handle(e) ==
  IF e.err # "" THEN Res({"raised"}, hs) ELSE
  CASE e.a = "grad" -> StepGrad(e)
    [] e.a = "local" -> StepLocal(e)
    [] e.a = "custom" -> StepCustom(e)
    [] e.a = "exact" -> StepExact(e)
    [] e.a = "comm" -> StepComm(e)
    [] e.a = "line" -> StepLine(e)
    [] e.a = "roto" -> StepRoto(e)
    [] e.a = "draw" -> StepDraw(e)
    [] e.a = "stoch" -> StepStoch(e)
    [] e.a = "zass" -> StepZass(e)
    [] e.a = "commute" -> StepCommute(e)
    [] e.a = "adapt" -> StepAdapt(e)
    [] e.a = "unit" -> StepUnit(e)
    [] e.a = "polar" -> StepPolar(e)
    [] e.a = "isunit" -> StepIsUnit(e)
    [] e.a = "same" -> StepSame(e)
    [] e.a = "new" -> Res({}, H0)

Init == /\ tix \in 1..Len(Traces)
        /\ lix = 0
        /\ hs = H0
Next == /\ lix < Len(Traces[tix].ev)
        /\ lix' = lix + 1
        /\ tix' = tix
        /\ LET res == Handle(Traces[tix].ev[lix + 1]) IN
             /\ hs' = res.h
             /\ IF res.fail = {} THEN TRUE
                ELSE PrintT("@FAIL@" \o ToJson([t |-> tix, l |-> lix + 1, c |-> SetToSeq(res.fail)]))
Spec == Init /\ [][Next]_<<tix, lix, hs>>
=============================================================================
