------------------------------ MODULE TracePair ------------------------------
(***************************************************************************)
(* Validates pairs of runs that must correspond, step by step:             *)
(*   mirror   the time-reflected problem (C13)                             *)
(*   units    in other units of the states and of time (C24)               *)
(*   observe  with a callback that changes nothing (C12)                   *)
(*   dense    with and without dense output requested (C20)                *)
(*   jac      with the user's and with a finite-difference Jacobian (C17); *)
(*            only the ends are recorded                                   *)
(***************************************************************************)
EXTENDS F64, FiniteSets, TLC, Json

CONSTANTS TraceFile, Prop

VARIABLES s, i, bad

Log == ndJsonDeserialize(TraceFile)
PropOf == [mirror |-> "C13", units |-> "C24", observe |-> "C12", dense |-> "C20", jac |-> "C17"]
Flag(S, cond, why) == IF cond THEN {} ELSE {<<PropOf[S.kind], why>>}
E9 == FLit("1e-9")
Tiny == FLit("1e-300")
Near(a, b) == FNear(a, b, Tiny, E9)
VNearR(v, w) == VDim(v) = VDim(w) /\ VNear(v, w, FMul(E9, VMaxAbs(v)), E9)

Xs(S) == IF "a" \in DOMAIN S THEN S.a.x ELSE << >>

Mirror(S, x, y) ==
    Flag(S, Near(FNeg(x.t), y.t) /\ Near(FNeg(x.tp), y.tp) /\ Near(FNeg(x.tf), y.tf), "times are not mirrored")
    \cup Flag(S, Near(FNeg(x.dt), y.dt) /\ Near(FNeg(x.dtp), y.dtp), "step sizes are not mirrored")
    \cup Flag(S, VNearR(x.u, y.u) /\ VNearR(x.up, y.up), "states are not the same")
    \cup Flag(S, x.ret = y.ret, "return codes differ")
    \cup Flag(S, x.st = y.st, "statistics differ")
    \cup Flag(S, x.n = y.n /\ x.m = y.m /\ Near(FNeg(x.lt), y.lt) /\ VNearR(x.lu, y.lu), "recorded points differ")

(* Powers of two: exactly, unless step sizes underflow. *)
Under(x) == FLt(FAbs(x.dt), FLit("1e-250"))
Zero == FInt(0)
Scaled1(a, b, c) == FNear(FMul(a, c), b, Zero, Zero)
Scaled(v, w, c) == VDim(v) = VDim(w) /\ VNear(VScale(c, v), w, Zero, Zero)
Units(S, x, y) ==
  IF Under(x) /\ Under(y) THEN {} ELSE
    Flag(S, Scaled1(x.t, y.t, S.st) /\ Scaled1(x.tp, y.tp, S.st) /\ Scaled1(x.tf, y.tf, S.st), "times are not scaled")
    \cup Flag(S, Scaled1(x.dt, y.dt, S.st) /\ Scaled1(x.dtp, y.dtp, S.st), "step sizes are not scaled")
    \cup Flag(S, Scaled(x.u, y.u, S.su) /\ Scaled(x.up, y.up, S.su), "states are not scaled")
    \cup Flag(S, x.ret = y.ret, "return codes differ")
    \cup Flag(S, x.st = y.st, "statistics differ")
    \cup Flag(S, x.n = y.n /\ x.m = y.m /\ Scaled1(x.lt, y.lt, S.st) /\ Scaled(x.lu, y.lu, S.su), "recorded points differ")

(* With a callback derivatives and matrices may have to be computed anew. From *)
(* step S.fin on the derivative is not a number, and never the same again.     *)
Evals(S, x) == IF S.kind = "observe" THEN [x EXCEPT !.st[2] = 0, !.st[3] = 0, !.st[4] = 0] ELSE x
Same(S, x, y) == Flag(S, Evals(S, x) = Evals(S, y), "runs differ")

(* Alike: the same result within the tolerance with comparable effort. *)
Largest(S) == FMax(VMaxAbs(S.a.x[1].u), VMaxAbs(S.a.us[1]))
Alike100(S, x, y) == FLe(VMaxAbs(VSub(x.u, y.u)), FMul(FInt(100), FAdd(S.a.o.abstol, FMul(S.a.o.reltol, Largest(S)))))
Alike(S, x, y) ==
  IF x.ret = "Success" /\ x.st[1] < 1000
  THEN Flag(S, y.ret = "Success", "fails without the user's Jacobian")
       \cup Flag(S, y.st[1] <= 3 * x.st[1] + 100 /\ x.st[1] <= 3 * y.st[1] + 100, "effort differs")
       \cup Flag(S, y.ret = "Success" => Alike100(S, x, y), "results differ")
  ELSE {}

PairBad(S, k) ==
  IF S.kind = "observe" /\ k > S.fin THEN {} ELSE
  IF S.kind = "jac" THEN Alike(S, S.a.x[1], S.b.x[1]) ELSE
  IF Len(S.a.x) # Len(S.b.x) /\ k > Len(S.b.x) THEN Flag(S, FALSE, "numbers of steps differ")
  ELSE (IF S.kind = "mirror" THEN Mirror(S, S.a.x[k], S.b.x[k]) ELSE
        IF S.kind = "units" THEN Units(S, S.a.x[k], S.b.x[k]) ELSE Same(S, S.a.x[k], S.b.x[k]))
       \cup (IF k < Len(S.a.x) THEN {}
             ELSE Flag(S, Len(S.a.x) = Len(S.b.x), "numbers of steps differ")
                  \cup (IF S.kind = "mirror"
                        THEN Flag(S, VNearR(VScale(FInt(-1), S.a.ts), S.b.ts) /\ Len(S.a.us) = Len(S.b.us)
                                     /\ \A q \in 1..Len(S.a.us) : VNearR(S.a.us[q], S.b.us[q]), "solutions are not mirrored")
                        ELSE IF S.kind = "units"
                        THEN Flag(S, Scaled(S.a.ts, S.b.ts, S.st) /\ Len(S.a.us) = Len(S.b.us)
                                     /\ \A q \in 1..Len(S.a.us) : Scaled(S.a.us[q], S.b.us[q], S.su), "solutions are not scaled")
                        ELSE Flag(S, S.a.ts = S.b.ts /\ S.a.us = S.b.us, "solutions differ")))

Start(S) ==
  IF S.end = "hang" THEN {}
  ELSE Flag(S, S.ends[1] = S.ends[2], "only one of the runs ends")

Init ==
  /\ s \in 1..Len(Log)
  /\ i = 0
  /\ bad = Start(Log[s])

Next ==
  /\ i < Len(Xs(Log[s]))
  /\ i' = i + 1
  /\ bad' = IF Log[s].ends[1] /\ Log[s].ends[2] THEN PairBad(Log[s], i + 1) ELSE {}
  /\ UNCHANGED s

Good == \A b \in bad : b[1] # Prop
=============================================================================
