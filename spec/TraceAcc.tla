------------------------------ MODULE TraceAcc ------------------------------
(***************************************************************************)
(* Judges computed solutions of problems with known solutions. A record    *)
(* holds several runs of one problem, with decreasing tolerances (smooth)  *)
(* or growing stiffness (stiff).                                           *)
(***************************************************************************)
EXTENDS Known, TLC, Json, FiniteSets

CONSTANTS TraceFile, Prop
VARIABLES s, i, bad

Log == ndJsonDeserialize(TraceFile)
Runs(S) == IF "runs" \in DOMAIN S THEN S.runs ELSE << >>
L(x) == FLit(x)
Rates(S, r) == IF "c" \in DOMAIN r THEN r.c ELSE S.c

RECURSIVE Peak(_, _, _, _)
(* Largest magnitude of each component at the recorded points 1..q. *)
Peak(S, r, sol, q) ==
  IF q = 0 THEN VZero(S.n) ELSE VMaxV(VAbs(sol[q]), Peak(S, r, sol, q - 1))

(* The error of every recorded point is at most k times the tolerance, in the
   mean over the components. *)
Accurate(S, r, k) ==
  LET m == Len(r.u)
      sol == TLCEval([q \in 1..m |-> Solution(S, Rates(S, r), VGet(r.t, q))])
      peak == Peak(S, r, sol, m)
      size == VMaxAbs(peak)
      noise == FMul(FMul(L("1e-13"), FInt(r.st[1] + 10)), size)
      weight(l) == FAdd(r.abstol, FMul(r.reltol, IF Coupled(S) THEN size ELSE VGet(peak, l)))
      tol == TLCEval(VMk([l \in 1..S.n |-> FAdd(FMul(k, weight(l)), noise)]))
  IN \A q \in 1..m : VIsFin(r.u[q]) /\ FLe(VMean2(VSub(r.u[q], sol[q]), tol), L("1"))

Flag(cond, p, why) == IF cond THEN {} ELSE {<<p, why>>}
Ended(S, r) == r.ret = "Success" /\ Len(r.u) > 0
               /\ FNear(VGet(r.t, Len(r.u)), S.tf, FMul(FInt(4), FUlp(FMax(FAbs(S.t0), FAbs(S.tf)))), L("0"))

(* Ratio of error and tolerance allowed on each family, with a margin of five
   over what occurs in many thousand runs; coarse tolerances depend on luck. *)
Factor(S, r) ==
  LET coarse == FLt(L("3e-5"), r.reltol)
  IN IF S.alg = "dp5"
     THEN (IF S.fam = "expsin" THEN 75 ELSE IF S.fam = "follow" THEN 20 ELSE 12) * (IF coarse THEN 4 ELSE 1)
     ELSE CASE S.fam = "decay" -> 3
            [] S.fam = "trig" -> 2
            [] S.fam = "kaps" -> IF coarse THEN 20 ELSE 5
            [] S.fam = "osc" -> 20
            [] S.fam = "riccati" -> IF coarse THEN 30 ELSE 12
            [] S.fam = "logistic" -> IF coarse THEN 60 ELSE 25
            [] S.fam = "follow" -> 120
            [] S.fam = "expsin" -> IF coarse THEN 750 ELSE 200

Smooth(S, r) ==
  Flag(Ended(S, r), "C18", "does not reach the end of a smooth problem")
  \cup Flag(Ended(S, r) => Accurate(S, r, FInt(Factor(S, r))),
            "C18", "error is not in proportion to the tolerance")

(* Attempts, as a multiple of those at no stiffness and of what the tolerance asks. *)
Stiff(S, r, r1) ==
  Flag(Ended(S, r), "C19", "does not reach the end of a stiff problem")
  \cup Flag(Ended(S, r) => Accurate(S, r, IF S.fam = "kaps" THEN L("1000") ELSE L("120")),
            "C19", "error on a stiff problem")
  \cup Flag(r.st[1] <= 3 * r1.st[1] + 30, "C19", "attempts grow with the stiffness")
  \cup Flag(FLe(FInt(r.st[1]), FMul(L("40"), FPow(r.reltol, L("-0.16666666666666666")))), "C19", "too many attempts")
  \cup Flag(r.st[3] <= r.st[1] + 1, "C19", "more Jacobians than attempts")
  \cup Flag(r.st[4] <= r.st[1] + 1, "C19", "more factorizations than attempts")

Init == /\ s \in 1..Len(Log)
        /\ i = 0
        /\ bad = IF Log[s].end = "hang" THEN {<<IF Log[s].kind = "stiff" THEN "C19" ELSE "C18", "no answer">>} ELSE {}
Next == /\ i < Len(Runs(Log[s]))
        /\ i' = i + 1
        /\ bad' = IF Log[s].kind = "stiff" THEN Stiff(Log[s], Log[s].runs[i + 1], Log[s].runs[1])
                  ELSE Smooth(Log[s], Log[s].runs[i + 1])
        /\ UNCHANGED s
Good == \A b \in bad : b[1] # Prop
=============================================================================
