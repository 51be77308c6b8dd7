------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Validates records of real runs, one scenario per line of the trace      *)
(* file, one record per call of step(). Each scenario is one behaviour;    *)
(* its state is the number of records consumed and what the specification  *)
(* remembers. Every record is compared with the step the specification     *)
(* allows from the recorded previous state; deviations are collected in    *)
(* bad as <<property, reason>>.                                            *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS TraceFile, Prop

VARIABLES s,    \* scenario
          i,    \* records consumed
          m,    \* memory of the specification
          bad   \* deviations

Log == ndJsonDeserialize(TraceFile)

DN == INSTANCE Dp5Num
RN == INSTANCE RadauNum
NT == INSTANCE Newton

Eps == FLit("2.220446049250313e-16")
One == FInt(1)
Zero == FInt(0)
E9 == FLit("1e-9")
Has(r, k) == k \in DOMAIN r
Flag(cond, p, why) == IF cond THEN {} ELSE {<<p, why>>}

FBetween(x, lo, hi) == FLe(lo, x) /\ FLe(x, hi)
(* x has moved from a in direction dir *)
Ahead(a, x, dir) == IF dir = 1 THEN FLt(a, x) ELSE FLt(x, a)
NotPast(x, b, tol, dir) == IF dir = 1 THEN FLe(x, FAdd(b, tol)) ELSE FLe(FSub(b, tol), x)
DirF(dir) == FInt(dir)

TimeTol(S, P) == FMul(FInt(4), FUlp(FMax(FAbs(S.t0), FAbs(P.tf))))

(* Doubles for the control-flow modules. *)
Reach5(t, dt, tf, dir) ==
  FLt(Zero, FMul(FSub(FAdd(t, FMul(FLit("1.01"), dt)), tf), DirF(dir)))
Small5(dt, t) == FLe(FAbs(dt), FMax(FMul(FAbs(t), Eps), FLit("2.2250738585072014e-308")))
D == INSTANCE Dp5 WITH
  Plus <- FAdd, Minus <- FSub, Reaches <- Reach5, TooSmall <- Small5

HalfR(a) == FMul(a, FLit("0.5"))
ReachR(t, dt, tf, dir) ==
  FLe(Zero, FMul(FSub(FAdd(t, FMul(FLit("1.0001"), dt)), tf), DirF(dir)))
ReachR2(t, dt, tf, dir) == FLe(Zero, FMul(FSub(FAdd(t, dt), tf), DirF(dir)))
SmallR(dt, t) == FLe(FMul(FLit("0.1"), FAbs(dt)), FMul(FAbs(t), Eps))
R == INSTANCE Radau WITH
  Plus <- FAdd, Minus <- FSub, Half <- HalfR, Reaches <- ReachR,
  Reaches2 <- ReachR2, TooSmall <- SmallR

-----------------------------------------------------------------------------
(* Records *)
Steps(S) == IF Has(S, "steps") THEN S.steps ELSE << >>
Pre(S, k) == IF k = 1 THEN S.init ELSE S.steps[k - 1].x
TrueK1(S, k) == IF k = 1 THEN S.k1 ELSE S.steps[k - 1].k1

STEPS == 1  FEV == 2  JEV == 3  DEC == 4  LS == 5  ACC == 6  REJ == 7

-----------------------------------------------------------------------------
(* What holds after construction *)
InitBad(S) ==
  IF ~Has(S, "init") THEN {}
  ELSE LET x == S.init IN
    Flag(x.st = <<0, 0, 0, 0, 0, 0, 0>>, "C11", "counters are not zero after construction")
    \cup Flag(x.n = 1 /\ x.m = 1 /\ x.lt = S.t0 /\ VEq(x.lu, S.u0), "C09", "initial point is not recorded")
    \cup Flag(x.t = S.t0 /\ VEq(x.u, S.u0), "C09", "initial state")
    \cup Flag(x.tf = S.tf, "C02", "another final time")
    \cup Flag(x.lt = S.t0, "C02", "recorded times do not begin with the start time")
    \cup Flag(x.ret = "Continue", "C03", "final code after construction")
    \cup Flag(FEq(x.dt, FMul(DirF(S.dir), FMin(FAbs(S.o.dtstart), S.o.dtmax))),
              "C08", "first step size is not dtstart")
    \cup Flag(\A q \in 1..Len(S.b) : S.b[q].t = S.t0, "C02", "evaluation away from the start time during construction")

(* What holds at the end of a scenario *)
EndBad(S) ==
  Flag(S.end \in {"ok", "cut"}, "C01", "run does not end")
  \cup (IF S.end \in {"ok", "cut"} /\ Has(S, "steps")
        THEN LET x == Pre(S, Len(S.steps) + 1) IN
             Flag(S.end = "cut" \/ x.ret # "Continue", "C01", "no final code")
             \cup Flag(VDim(S.ts) = x.n /\ Len(S.us) = x.m, "C09", "recorded points change after the fact")
             \cup Flag(VGet(S.ts, 1) = S.t0 /\ VEq(S.us[1], S.u0), "C09", "initial point is lost")
        ELSE {})

-----------------------------------------------------------------------------
(* Checks that do not depend on the algorithm. *)
Unchanged(a, b, fields) == \A f \in fields : a[f] = b[f]

CommonBad(S, P, r) ==
  LET E == r.e
      X == r.x
      acc == E.n > P.n
      tol == TimeTol(S, P)
      there == FNear(E.t, P.tf, tol, Zero)
      maxs == S.o.max_steps
  IN
  IF P.ret # "Continue"
  THEN Flag(r.nc = 0, "C04", "evaluation after the end")
       \cup Flag(r.cbn = 0, "C04", "callback after the end")
       \cup Flag(r.r = -1, "C04", "step of a finished integration returns something")
       \cup Flag(X = P, "C04", "finished integration changes")
  ELSE
  (* C01 *)
  Flag(r.nc <= 60000, "C01", "a single step makes too many evaluations")
  (* C02 *)
  \cup Flag(acc => Ahead(P.t, E.t, S.dir), "C02", "time does not advance")
  \cup Flag(NotPast(E.t, P.tf, tol, S.dir), "C02", "passes the final time")
  \cup Flag(E.tf = P.tf, "C02", "step moves the final time")
  \cup Flag(acc => E.lt = E.t, "C02", "recorded time is not the current time")
  \cup Flag(E.ret = "Success" => there, "C02", "success away from the final time")
  \cup Flag(\A q \in 1..Len(r.c) :
              /\ NotPast(r.c[q].t, P.tf, tol, S.dir)
              /\ NotPast(S.t0, r.c[q].t, tol, S.dir),
            "C02", "evaluation outside the interval")
  (* C03 *)
  \cup Flag(E.ret = "Success" => acc /\ there, "C03", "Success is reported wrongly")
  (* a callback may stop the run any small distance before the end *)
  \cup Flag(acc /\ (E.t = P.tf \/ (there /\ ~S.cb)) => E.ret = "Success", "C03", "Success is not reported")
  \cup Flag(E.ret \in {"Continue", "Success"} \/ ~(acc /\ there), "C03", "end reached but not reported")
  \cup Flag(~acc => E.ret # "Continue", "C03", "step without progress goes on")
  \cup Flag(E.st[STEPS] <= maxs, "C03", "step limit exceeded")
  \cup Flag(r.via = "step" => r.r = IF X.ret = "Continue" THEN X.st[STEPS] ELSE -1, "C03", "value of step")
  \cup Flag(E.ret \in {"Continue", "Success", "MaxIters", "DtLessThanMin", "SingularMatrix"},
            "C03", "unexpected code")
  \cup (IF S.alg = "dp5"
        THEN Flag(E.ret = "MaxIters" <=> acc /\ ~there /\ E.st[STEPS] >= maxs, "C03", "MaxIters is reported wrongly")
             \cup Flag(E.ret = "DtLessThanMin" <=> ~acc, "C03", "DtLessThanMin is reported wrongly")
             \cup Flag(E.ret # "SingularMatrix", "C03", "no matrix here")
             \cup Flag(E.ret = "DtLessThanMin" => Small5(FMul(E.dt, FLit("0.9999")), E.t), "C03", "step size is not too small")
        ELSE Flag(E.ret = "MaxIters" <=> ~acc /\ E.st[STEPS] >= maxs, "C03", "MaxIters is reported wrongly")
             \cup Flag(E.ret = "DtLessThanMin" => ~acc /\ SmallR(FMul(E.dt, FLit("0.9999")), E.t), "C03", "step size is not too small"))
  (* C09 *)
  \cup Flag(E.n = E.m, "C09", "numbers of times and states differ")
  \cup (IF acc
        THEN Flag(E.n = P.n + 1, "C09", "more than one point recorded")
             \cup Flag(E.lt = E.t /\ VEq(E.lu, E.u), "C09", "last recorded pair is not the current one")
             \cup Flag(E.tp = P.t, "C09", "previous time")
             \cup Flag(VEq(E.up, P.u), "C09", "previous state")
             \cup Flag(FNear(FAdd(E.tp, E.dtp), E.t, FMul(FInt(2), FUlp(E.t)), Zero), "C09", "previous step size")
             \cup (IF S.end \in {"ok", "cut"}
                   THEN Flag(VDim(S.ts) >= E.n /\ Len(S.us) >= E.n
                             /\ VGet(S.ts, E.n) = E.lt /\ VEq(S.us[E.n], E.lu), "C09", "recorded pair changes later")
                   ELSE {})
        ELSE Flag(Unchanged(E, P, {"n", "m", "lt", "lu"}), "C09", "recorded points change without a step")
             \cup Flag(Unchanged(E, P, {"t", "u"}), "C05", "rejected attempt changes the state")
             \cup Flag(Unchanged(E, P, {"tp", "up"}), "C09", "previous point changes without a step"))
  (* C10 *)
  \cup (IF r.via = "next"
        THEN Flag(acc <=> "yt" \in DOMAIN r, "C10", "iterator yields a point without a step or the other way round")
             \cup (IF "yt" \in DOMAIN r
                   THEN Flag(r.yt = E.lt /\ (VEq(r.yu, E.lu) \/ VEq(r.yu, X.u)), "C10", "iterator yields something else")
                   ELSE {})
        ELSE {})
  (* C12 *)
  \cup Flag(r.cbn = IF S.cb THEN 1 ELSE 0, "C12", "callback is not called once")
  \cup Flag(E.k = P.k, "C12", "step changes the parameters")
  \cup Flag(S.cb => E.n <= P.n + 1, "C12", "points recorded between two calls of the callback")
  \cup (IF S.cb /\ r.cbn >= 1
        THEN Flag(X = r.y, "C12", "step changes what the callback left")
             \cup Flag(Unchanged(X, E, {"n", "m", "lt", "lu", "t", "tp", "up", "dtp", "st"}),
                       "C12", "state changes after the callback was called")
             \cup Flag(acc => VEq(E.u, E.lu) /\ E.t = E.lt, "C12", "callback sees a state that is not up to date")
        ELSE {})

-----------------------------------------------------------------------------
(* Dormand-Prince *)
Ctl5(P) ==
  [D!Fresh(P.t, P.dt) EXCEPT !.tp = P.tp, !.dtp = P.dtp, !.steps = P.st[STEPS],
     !.acc = P.st[ACC], !.nrej = P.st[REJ], !.fev = P.st[FEV], !.nrec = P.n]

RECURSIVE Fold5(_, _, _, _)
(* Control record after the attempts a..na with step sizes hs; hs[na + 1] is
   the proposal left behind. *)
Fold5(c, g, hs, a) ==
  IF a > g.na THEN c
  ELSE IF a = g.na /\ g.acc THEN D!Accept(c, g, hs[a + 1])
  ELSE Fold5(D!Reject(c, g, hs[a + 1]), g, hs, a + 1)

Dp5Bad(S, P, r, k1, mem) ==
  LET E == r.e
      o == S.o
      acc == E.n > P.n
      off == Len(r.c) % 6
      na == (Len(r.c) - off) \div 6
      g == [tf |-> P.tf, dir |-> S.dir, max |-> o.max_steps, cb |-> off = 1, na |-> na, acc |-> acc]
      start == D!Start(Ctl5(P), g)
      (* the specification's opinion on the step size has a margin *)
      c0 == IF na = 0 THEN start ELSE [start EXCEPT !.ph = "try", !.ret = P.ret]
      call(a, q) == r.c[off + 6 * (a - 1) + q]
      (* step sizes of the attempts, inferred from evaluation times except the last *)
      hs == TLCEval([a \in 1..(na + 1) |-> IF a = na + 1 THEN E.dt
                                           ELSE IF a = na THEN E.dtp
                                           ELSE FSub(call(a, 6).t, P.t)])
      (* relative uncertainty of the inferred size *)
      rho == TLCEval([a \in 1..na |-> IF a = na THEN Zero
                              ELSE FDiv(FMul(FInt(2), FUlp(FMax(FAbs(P.t), FAbs(call(a, 6).t)))), FAbs(hs[a]))])
      ks == TLCEval([a \in 1..na |-> <<k1, call(a, 1).o, call(a, 2).o, call(a, 3).o,
                                       call(a, 4).o, call(a, 5).o, call(a, 6).o>>])
      un(a) == call(a, 6).u
      err == TLCEval([a \in 1..na |-> DN!ErrOf(P.u, un(a), hs[a], ks[a], o)])
      etol == TLCEval([a \in 1..na |-> FAdd(DN!ErrTol(P.u, un(a), hs[a], ks[a], o),
                                            FMul(err[a], FAdd(E9, FMul(FInt(2), rho[a]))))])
      ctl == Fold5(c0, g, hs, 1)
      okStage(a, q) ==
        /\ FNear(call(a, q).t, FAdd(P.t, FMul(DN!Node[q], hs[a])),
                 FAdd(FMul(FInt(4), FUlp(FMax(FAbs(P.t), FAbs(E.t)))), FMul(rho[a], FAbs(hs[a]))), Zero)
        (* a stage of weight zero may or may not be added if it is not finite *)
        /\ \/ q = 6 /\ ~VIsFin(ks[a][2])
           \/ VNearV(call(a, q).u, DN!StageU(P.u, hs[a], ks[a], q),
                     VScale(FAdd(FLit("1e-13"), FMul(FInt(2), rho[a])), DN!StageTol(P.u, hs[a], ks[a], q)))
      clear(a) == FLt(rho[a], FLit("1e-4"))
      lo(a) == FMax(Zero, FSub(err[a], etol[a]))
      hi(a) == FAdd(err[a], etol[a])
      (* proposal after acceptance, for an error estimate x *)
      prop(a, x) ==
        LET d == FDiv(FAbs(hs[a]), DN!AcceptRatio(x, mem.fo, o))
            e == FMin(d, o.dtmax)
        IN IF a > 1 THEN FMin(e, FAbs(hs[a])) ELSE e
      retry(a, x) == FDiv(FAbs(hs[a]), DN!RejectRatio(x, o))
      near(x, l, u) == FBetween(x, FMul(l, FLit("0.99999999")), FMul(u, FLit("1.00000001")))
      slackh(a) == FAdd(One, FAdd(E9, FMul(FInt(2), FAdd(rho[a], IF a < na THEN rho[a + 1] ELSE Zero))))
  IN
  IF Len(r.c) = 0 /\ r.nc > 0 THEN [bad |-> {}, m |-> mem]   \* too long to be recorded
  ELSE IF off <= 1 /\ na = 0 /\ E.ret = "DtLessThanMin"
  THEN [bad |->
     Flag(Unchanged(E, P, {"t", "u", "dt", "tp", "up", "dtp", "n", "m", "lt", "lu"}), "C03", "step size is not tried but something changes")
     \cup Flag(start.ret = E.ret \/ Small5(FMul(E.dt, FLit("0.9999")), E.t), "C03", "step size is not too small")
     \cup Flag(Unchanged(E, [P EXCEPT !.st[FEV] = @ + r.nc], {"st"}), "C11", "counters of a step that was not tried"),
     m |-> mem]
  ELSE IF off > 1 \/ na = 0
  THEN [bad |-> {<<"C06", "evaluations are not those of the method">>,
                 <<"C11", "evaluations are not those of the method">>}, m |-> mem]
  ELSE
  [bad |->
     (* C06 *)
     Flag(\A a \in 1..na : clear(a) => \A q \in 1..6 : okStage(a, q), "C06", "stage of the method")
     \cup Flag(acc => VNearV(E.u, un(na), VScale(FLit("1e-14"), VAbs(un(na)))), "C06", "new state is not the fifth-order result")
     (* C12: the first stage belongs to the state the callback left *)
     \cup Flag(S.cb => \A a \in 1..na : clear(a) => okStage(a, 1), "C12", "step does not start from the state the callback left")
     (* C05 *)
     \cup Flag(acc => FLe(FSub(err[na], etol[na]), One), "C05", "step accepted although its error is too large")
     \cup Flag(\A a \in 1..(na - 1) : clear(a) => ~FLt(FAdd(err[a], etol[a]), One), "C05", "step rejected although its error is small")
     (* C08 *)
     \cup Flag(FNear(hs[1], c0.dt, FAdd(FMul(rho[1], FAbs(hs[1])), Zero), E9), "C08", "first attempt does not have the proposed size")
     \cup Flag(acc /\ E.ret # "Success" => near(FAbs(E.dt), prop(na, hi(na)), prop(na, lo(na))), "C08", "proposal after an accepted step")
     \cup Flag(\A a \in 1..na : (a < na \/ ~acc) /\ clear(a) /\ (a = na \/ clear(a + 1)) =>
                 IF FIsNaN(err[a]) THEN FNear(FAbs(hs[a + 1]), FMul(FAbs(hs[a]), o.facl), Zero, FSub(slackh(a), FLit("0.99999999")))
                 ELSE FBetween(FAbs(hs[a + 1]), FDiv(retry(a, hi(a)), slackh(a)), FMul(retry(a, lo(a)), slackh(a))),
               "C08", "size after a rejected attempt")
     \cup Flag(\A a \in 1..na : (a < na \/ ~acc) /\ clear(a) => FLt(FAbs(hs[a + 1]), FAbs(hs[a])), "C08", "rejected attempt does not shrink")
     \cup Flag(acc /\ E.ret # "Success" => FLe(FAbs(E.dt), o.dtmax), "C08", "larger than dtmax")
     \cup Flag(\A a \in 1..na : FLe(FMul(FAbs(hs[a]), FLit("0.98")), FMax(o.dtmax, IF S.cb THEN FAbs(P.dt) ELSE Zero)), "C08", "attempt larger than dtmax")
     \cup Flag(E.ret = "Continue" => FLt(Zero, FMul(E.dt, DirF(S.dir))), "C08", "wrong direction")
     (* C11 and C03: counters and code *)
     \cup Flag(E.st[FEV] = ctl.fev, "C11", "function evaluations")
     \cup Flag(E.st[FEV] = P.st[FEV] + r.nc, "C11", "function evaluations")
     \cup Flag(E.st[STEPS] = ctl.steps, "C11", "steps")
     \cup Flag(E.st[ACC] = ctl.acc, "C11", "accepted steps")
     \cup Flag(E.st[REJ] = ctl.nrej, "C11", "rejected steps")
     \cup Flag(E.st[JEV] = 0 /\ E.st[DEC] = 0 /\ E.st[LS] = 0, "C11", "counters of implicit methods")
     \cup Flag(start.ret = "Continue" \/ ~Small5(FMul(c0.dt, FLit("2")), P.t), "C03", "step with a size below the resolution")
     \cup Flag(\A a \in 1..(na - 1) : ~Small5(FMul(hs[a + 1], FLit("2")), P.t) \/ ~clear(a), "C03", "goes on with a step size below the resolution")
     \cup Flag(E.ret = ctl.ret, "C03", "code")
     (* C20 *)
     \cup (IF Has(r, "d") /\ acc
           THEN Flag(\A q \in 1..Len(r.d) :
                  LET sfrac == FDiv(FSub(r.d[q].t, P.t), hs[na])
                      w == FDiv(FMul(FInt(8), FUlp(FMax(FAbs(P.t), FAbs(E.t)))), FAbs(hs[na]))
                  IN VDim(r.d[q].v) = S.dim /\ VNearV(r.d[q].v, DN!DenseAt(P.u, un(na), hs[na], ks[na], sfrac),
                            VScale(FAdd(FLit("1e-12"), w), DN!DenseTol(P.u, hs[na], ks[na]))),
                  "C20", "dense output")
           ELSE {}),
   m |-> [mem EXCEPT !.fo = IF acc THEN FMax(err[na], FLit("1e-4")) ELSE @]]

-----------------------------------------------------------------------------
(* Radau5 *)

(* Call q begins a finite-difference Jacobian at (t, u). *)
FdAt(cs, q, t, u) ==
  LET n == VDim(u) IN
  /\ q + n <= Len(cs)
  /\ cs[q].k = "f" /\ cs[q].t = t /\ VEq(cs[q].u, u)
  /\ \A l \in 1..n : /\ cs[q + l].k = "f" /\ cs[q + l].t = t
                     /\ \A p \in 1..n : (p = l) # (VGet(cs[q + l].u, p) = VGet(u, p))
FdJac(cs, q) ==
  LET n == VDim(cs[q].u)
      del(l) == FSub(VGet(cs[q + l].u, l), VGet(cs[q].u, l))
      entry(p, l) == FDiv(FSub(VGet(cs[q + l].o, p), VGet(cs[q].o, p)), del(l))
  IN VMk([e \in 1..(n * n) |-> entry(((e - 1) \div n) + 1, ((e - 1) % n) + 1)])

(* Kinds of calls: N Newton iteration, E refined error estimate, J Jacobian at
   the start point, K Jacobian at the new point, R derivative at the start
   point, A derivative at the new point, X anything else. *)
Token(cs, q, P, E, acc, fd) ==
  LET n == VDim(P.u) IN
  IF cs[q].k = "j"
  THEN [k |-> IF acc /\ cs[q].t = E.t /\ VEq(cs[q].u, E.u) THEN "K"
              ELSE IF cs[q].t = P.t /\ VEq(cs[q].u, P.u) THEN "J" ELSE "X",
        p |-> q, n |-> 1]
  ELSE IF cs[q].t = P.t
  THEN IF fd /\ FdAt(cs, q, P.t, P.u) THEN [k |-> "J", p |-> q, n |-> n + 1]
       ELSE [k |-> IF VEq(cs[q].u, P.u) THEN "R" ELSE "E", p |-> q, n |-> 1]
  ELSE IF acc /\ cs[q].t = E.t /\ fd /\ FdAt(cs, q, E.t, E.u)
  THEN [k |-> "K", p |-> q, n |-> n + 1]
  ELSE IF acc /\ cs[q].t = E.t /\ VEq(cs[q].u, E.u)
  THEN [k |-> "A", p |-> q, n |-> 1]
  ELSE IF q + 2 <= Len(cs) /\ cs[q + 1].k = "f" /\ cs[q + 2].k = "f"
  THEN [k |-> "N", p |-> q, n |-> 3]
  ELSE [k |-> "X", p |-> q, n |-> 1]

RECURSIVE Tokens(_, _, _, _, _, _)
Tokens(cs, q, P, E, acc, fd) ==
  IF q > Len(cs) THEN << >>
  ELSE LET t == Token(cs, q, P, E, acc, fd)
       IN <<t>> \o Tokens(cs, q + t.n, P, E, acc, fd)

JacOf(cs, t, fd) == IF fd THEN FdJac(cs, t.p) ELSE cs[t.p].o

RECURSIVE Events(_, _, _, _, _, _)
(* Attempts (A) and singular factorizations (S) in order, from token q on,
   with Jacobian jac; tk: tokens. *)
Events(cs, tk, q, P, jac, fd) ==
  IF q > Len(tk) THEN << >>
  ELSE CASE tk[q].k = "N" ->
         LET t3(w) == cs[tk[w].p + 2].t
             same(w) == FNear(t3(w), t3(q), FMul(FInt(2), FUlp(t3(q))), Zero)
             e == CHOOSE e \in q..Len(tk) :
                    /\ \A w \in q..e : tk[w].k = "N" /\ same(w)
                    /\ (e = Len(tk) \/ tk[e + 1].k # "N" \/ ~same(e + 1))
             ref == e < Len(tk) /\ tk[e + 1].k = "E"
             nx == IF ref THEN e + 2 ELSE e + 1
             jx == nx <= Len(tk) /\ tk[nx].k = "J"
             ev == [ty |-> "A", h |-> FSub(t3(q), P.t), ns |-> TLCEval([w \in 1..(e - q + 1) |-> tk[q + w - 1].p]),
                    est |-> IF ref THEN tk[e + 1].p ELSE 0, jac |-> jac, newj |-> jx]
         IN <<ev>> \o Events(cs, tk, IF jx THEN nx + 1 ELSE nx, P,
                             IF jx THEN JacOf(cs, tk[nx], fd) ELSE jac, fd)
       [] tk[q].k = "J" ->
         <<[ty |-> "S"]>> \o Events(cs, tk, q + 1, P, JacOf(cs, tk[q], fd), fd)
       [] OTHER -> Events(cs, tk, q + 1, P, jac, fd)

BuildJac(S) ==
  LET b == S.b
      js == {q \in 1..Len(b) : b[q].k = "j"}
      fds == {q \in 1..Len(b) : FdAt(b, q, S.t0, S.u0)}
  IN IF js # {} THEN b[CHOOSE q \in js : \A p \in js : p <= q].o
     ELSE IF fds # {} THEN FdJac(b, CHOOSE q \in fds : TRUE)
     ELSE << >>

CtlR(P, mem) ==
  [R!Fresh(P.t, P.dt) EXCEPT !.tp = P.tp, !.dtp = P.dtp, !.first = P.st[ACC] = 0,
     !.dec = ~mem.keep, !.luh = P.dtp, !.nsing = mem.sing,
     !.steps = P.st[STEPS], !.acc = P.st[ACC], !.nrej = P.st[REJ], !.fev = P.st[FEV],
     !.jev = P.st[JEV], !.ndec = P.st[DEC], !.nls = P.st[LS], !.nrec = P.n]

(* Numbers of one attempt; h is known up to the relative error rho. *)
Attempt(cs, P, ev, h, rho, rel, f0, scal, o) ==
  LET K == Len(ev.ns)
      z == TLCEval([k \in 1..K |-> RN!Cat3(VSub(cs[ev.ns[k]].u, P.u), VSub(cs[ev.ns[k] + 1].u, P.u),
                                           VSub(cs[ev.ns[k] + 2].u, P.u))])
      next(k) == RN!NewtonStep(h, ev.jac, z[k], cs[ev.ns[k]].o, cs[ev.ns[k] + 1].o, cs[ev.ns[k] + 2].o)
      zn == TLCEval([k \in 1..K |-> next(k)])
      d == TLCEval([k \in 1..K |-> RN!IncNorm(VSub(IF k = K THEN zn[k] ELSE z[k + 1], z[k]), scal)])
      ze == zn[K]
      v1 == RN!Filter(h, ev.jac, ze, f0)
      v == IF ev.est = 0 THEN v1 ELSE RN!Filter(h, ev.jac, ze, cs[ev.est].o)
      mx == o.max_newt_iter
      theta(k) == NT!Rate(d, k)
      fc(k) == NT!FactorOf(theta(k))
      big(k) == NT!Diverges(d, k)
      top == IF K < mx THEN K ELSE K - 1
      (* noise of the norms of increments, and relative noise of rates *)
      zs == IF VIsFin(z[K]) THEN RN!IncNorm(z[K], scal) ELSE Zero
      e == FAdd(VMean2(VScale(FLit("1e-11"), VAbs(P.u)), scal), FAdd(FMul(FMul(FInt(10), rho), d[1]), FMul(FLit("1e-13"), zs)))
      re(k) == FAdd(FAdd(rel, FDiv(e, d[k])), FAdd(FDiv(e, d[k - 1]), IF k > 2 THEN FDiv(e, d[k - 2]) ELSE Zero))
      clear(k) == FLt(re(k), FLit("0.05"))
      (* relative noise of what is predicted from a rate *)
      mg(k) == FAdd(FLit("0.02"), FMul(re(k), FAdd(FInt(2 * (mx - 1 - k)), FDiv(FInt(10), FSub(One, theta(k))))))
      low99(k) == FLt(FMul(theta(k), FAdd(One, FMul(FInt(2), re(k)))), FLit("0.989"))
      high99(k) == FLt(FMul(FLit("0.991"), FAdd(One, FMul(FInt(2), re(k)))), theta(k))
      pred(k) == NT!Predicted(d, k, mx, o.fnewt)
      left(k) == FDiv(FMul(fc(k), d[k]), o.fnewt)
      less(k, x) == FLt(mg(k), FLit("0.5")) /\ FLt(FMul(x, FAdd(One, mg(k))), One)
      more(k, x) == FLt(mg(k), FLit("0.5")) /\ FLt(One, FMul(x, FSub(One, mg(k))))
      noise == VMean2(VScale(FLit("1e-13"), VAdd(VAbs(P.u), IF VIsFin(ze) THEN VAbs(RN!Third(ze, 3)) ELSE VZero(VDim(P.u)))), scal)
      (* norms overflow although the vectors do not *)
      over == \/ ~FLt(noise, FLit("1e100"))
              \/ \E k \in 1..K : VIsFin(z[k]) /\ VIsFin(zn[k]) /\ ~FLt(d[k], FLit("1e150"))
              (* or the matrix is all but singular *)
              \/ \E k \in 1..K : FLt(FMul(FLit("1e7"), FAdd(VMaxAbs(z[k]), FMul(FAbs(h),
                     FMax(VMaxAbs(cs[ev.ns[k]].o), FMax(VMaxAbs(cs[ev.ns[k] + 1].o), VMaxAbs(cs[ev.ns[k] + 2].o)))))),
                     VMaxAbs(VSub(zn[k], z[k])))
      (* convergence after the last iteration, as a factor of the tolerance *)
      q == IF K >= 2 /\ K < mx THEN FDiv(FMul(fc(K), d[K]), o.fnewt)
           ELSE IF K >= 3 THEN FDiv(FMul(fc(K - 1), d[K]), o.fnewt)
           ELSE Zero
      (* rounding of the states in the increments, and in q *)
      ec == FAdd(VMean2(VScale(FLit("2e-15"), VAbs(P.u)), scal), FMul(FLit("2e-15"), zs))
      nq == IF K < 2 \/ top < 2 THEN Zero
            ELSE FMul(FAdd(FDiv(ec, d[K]), FAdd(FDiv(ec, d[top]), FDiv(ec, d[top - 1]))),
                      FAdd(FInt(2), FDiv(FInt(2), FAbs(FSub(One, theta(top))))))
      small == top >= 2 /\ FLt(FAdd(d[K], ec), FMul(FLit("0.98"), o.fnewt))
               /\ FLt(theta(top), FLit("0.4")) /\ FLt(FAdd(d[top], ec), FMul(FLit("0.4"), d[top - 1]))
  IN [K |-> K, z |-> z, zn |-> zn, ze |-> ze, v1 |-> v1,
      first |-> RN!EstNorm(v1, scal), err |-> RN!EstNorm(v, scal),
      d1 |-> d[1],
      (* rate of convergence that decides about the Jacobian *)
      fast |-> IF top < 2 THEN FLe(FAbs(o.theta), o.theta)
               ELSE clear(top) /\ FLt(FMul(theta(top), FAdd(One, FMul(FInt(2), re(top)))), o.theta),
      slow |-> IF top < 2 THEN FLt(o.theta, FAbs(o.theta))
               ELSE clear(top) /\ FLt(o.theta, FMul(theta(top), FSub(One, FMul(FInt(2), re(top))))),
      (* the iteration should have been given up, or had converged, before *)
      late |-> \E k \in 2..(K - 1) : NT!Judged(k, mx) /\
                 (\/ ~\A c \in 0..2 : VIsFin(cs[ev.ns[k] + c].o)
                  \/ clear(k) /\ (high99(k) \/ (low99(k) /\ more(k, pred(k))))),
      idle |-> \E k \in 2..(K - 1) : NT!Judged(k, mx) /\ clear(k) /\ low99(k) /\ less(k, left(k)) /\ less(k, pred(k)),
      (* it could have gone on *)
      hasty |-> NT!Judged(K, mx) /\ clear(K) /\ low99(K) /\ less(K, pred(K)),
      (* factor of the step size after giving up, and its uncertainty *)
      shrink |-> IF K >= mx \/ (NT!Judged(K, mx) /\ (FIsNaN(d[K]) \/ (clear(K) /\ high99(K)))) THEN FLit("0.5")
                 ELSE IF NT!Judged(K, mx) /\ clear(K) /\ low99(K) /\ more(K, pred(K)) THEN NT!Slower(pred(K), K, mx)
                 ELSE << >>,
      unsure |-> IF NT!Judged(K, mx) /\ clear(K) /\ low99(K) THEN mg(K) ELSE Zero,
      (* the convergence factor left, at least *)
      fc |-> LET low(k) == LET x == FMul(fc(k), FMax(Zero, FSub(One, FDiv(e, d[k]))))
                           IN IF FIsNaN(x) THEN Zero ELSE x
             IN IF top < 2 THEN << >>
                ELSE IF big(top) THEN (IF top > 2 /\ ~big(top - 1) THEN low(top - 1) ELSE << >>) ELSE low(top),
      (* and at most *)
      fh |-> LET up(k) == LET x == FMul(fc(k), FAdd(One, mg(k)))
                          IN IF clear(k) /\ low99(k) /\ ~FIsNaN(x) /\ FLt(mg(k), One) THEN x ELSE FLit("1e10")
             IN IF top < 2 THEN << >>
                ELSE IF clear(top) /\ low99(top) THEN up(top) ELSE FLit("1e10"),
      noise |-> noise, over |-> over,
      conv |-> IF over THEN "unknown"
               ELSE IF K = 1 THEN IF mx = 1 THEN "unknown" ELSE "yes"
               ELSE IF K >= mx /\ K < 3 THEN "unknown"
               ELSE IF small THEN "yes"
               ELSE IF FLt(FLit("0.5"), nq) THEN "unknown"
               ELSE IF K < mx /\ big(K) THEN "no"
               ELSE IF FIsNaN(q) THEN "no"
               ELSE IF FLt(FMul(q, FAdd(One, nq)), FLit("0.98")) THEN "yes"
               ELSE IF FLt(FLit("1.02"), FMul(q, FSub(One, nq))) THEN "no"
               ELSE "unknown"]

(* Convergence factor before attempt a, from those of the attempts before. *)
RECURSIVE FcBefore(_, _, _, _)
FcBefore(at, a, fc0, f) ==
  IF a = 1 THEN fc0
  ELSE LET p == FcBefore(at, a - 1, fc0, f)
       IN IF at[a - 1].K = 0 THEN p
          ELSE IF at[a - 1][f] # << >> THEN at[a - 1][f]
          ELSE NT!Damp(p)

RECURSIVE FoldR(_, _, _, _)
(* ev: events; ev[a].out is "conv", "fail"; g.hs[a] the sizes. *)
FoldR(c, g, evs, a) ==
  IF a > Len(evs) THEN c
  ELSE LET e == evs[a]
           nx == g.hs[a + 1]
           b == R!Begin(c)
       IN IF e.ty = "S" THEN FoldR(R!Singular(c), g, evs, a + 1)
          ELSE IF a = Len(evs) /\ g.acc
          THEN R!Accept(b, g, Len(e.ns), e.est # 0, g.dnew, g.keep, g.newj)
          ELSE IF e.rejected THEN FoldR(R!Reject(b, Len(e.ns), e.est # 0, nx), g, evs, a + 1)
          ELSE FoldR(R!NewtonFail(b, Len(e.ns), nx), g, evs, a + 1)

RadauBad(S, P, r, f0, mem) ==
  LET E == r.e
      o == S.o
      cs == r.c
      n == S.dim
      fd == S.jac = "fd"
      acc == E.n > P.n
      dirf == DirF(S.dir)
      tk == Tokens(cs, 1, P, E, acc, fd)
      kinds == {tk[q].k : q \in 1..Len(tk)}
      ks == {q \in 1..Len(tk) : tk[q].k = "K"}
      chg == S.cb /\ (~VEq(f0, mem.f) \/ (\E q \in 1..n : FIsNaN(VGet(f0, q)))
                      \/ (mem.u # << >> /\ ~VEq(VScal(o.abstol, o.reltol, P.u), VScal(o.abstol, o.reltol, mem.u))))
      fresh == chg /\ Len(tk) >= 2 /\ tk[2].k = "J"
      jac0 == IF fresh THEN JacOf(cs, tk[2], fd) ELSE mem.jac
      ev0 == Events(cs, tk, IF fresh THEN 3 ELSE 1, P, jac0, fd)
      ne == Len(ev0)
      jacAfter == IF ks # {} THEN JacOf(cs, tk[CHOOSE q \in ks : TRUE], fd)
                  ELSE LET js == {q \in 1..Len(tk) : tk[q].k = "J"} IN
                       IF js = {} THEN mem.jac
                       ELSE JacOf(cs, tk[CHOOSE q \in js : \A p \in js : p <= q], fd)
      gs == [tf |-> P.tf, dir |-> S.dir, max |-> o.max_steps, cb |-> S.cb]
      c0 == R!Start([CtlR(P, mem) EXCEPT !.chg = chg], gs)
      ulp == FUlp(FMax(FAbs(P.t), FMax(FAbs(E.t), FAbs(c0.dt))))
      (* step size of event a: exact where known *)
      exact(a) == IF a = ne /\ acc THEN E.dtp
                  ELSE IF a = 1 THEN c0.dt
                  ELSE ev0[a].h
      hs == TLCEval([a \in 1..(ne + 1) |-> IF a = ne + 1 THEN E.dt
                                           ELSE IF ev0[a].ty = "S" THEN IF a = 1 THEN c0.dt ELSE Zero
                                           ELSE exact(a)])
      rho(a) == IF a = ne /\ acc THEN Zero ELSE FDiv(FMul(FInt(4), ulp), FAbs(hs[a]))
      clear(a) == FLt(rho(a), FLit("1e-6"))
      scal == VScal(o.abstol, o.reltol, P.u)
      rel == IF fd THEN FLit("1e-3") ELSE FLit("1e-5")
      at == TLCEval([a \in 1..ne |-> IF ev0[a].ty = "S" THEN [K |-> 0] ELSE Attempt(cs, P, ev0[a], hs[a], rho(a), rel, f0, scal, o)])
      evs == TLCEval([a \in 1..ne |-> IF ev0[a].ty = "S" THEN [ty |-> "S"]
              ELSE [ty |-> "A", ns |-> ev0[a].ns, est |-> ev0[a].est,
                    rejected |-> at[a].conv = "yes" \/ ev0[a].est # 0]])
      (* differences of huge states are not known well enough *)
      ok == mem.ok /\ (fd => FLt(VMaxAbs(P.u), FLit("1e9"))) /\ \A a \in 1..ne : ev0[a].ty = "A" => ~at[a].over
      known(a) == ev0[a].ty = "A" /\ (at[a].conv # "unknown" \/ ev0[a].est # 0 \/ (acc /\ a = ne))
      A == IF acc /\ ne > 0 /\ ev0[ne].ty = "A" THEN at[ne] ELSE [K |-> 0]
      fc0 == IF chg THEN One ELSE mem.fc
      fh0 == IF chg THEN One ELSE mem.fh
      early1(a) == at[a].K > 1 /\ o.max_newt_iter > 1
                   /\ FLt(FMul(FLit("30"), FMul(NT!Damp(FcBefore(at, a, fh0, "fh")), at[a].d1)), o.fnewt)
      (* the first iteration is judged by the factor left by earlier ones *)
      early == FLt(FMul(FLit("30"), o.fnewt), FMul(NT!Damp(FcBefore(at, ne, fc0, "fc")), A.d1))
      h == E.dtp
      rejected == ne > 1
      etol(a) == FAdd(FMul(at[a].err, FAdd(rel, rho(a))), at[a].noise)
      ratio(a, x) ==
        IF o.modern_pred /\ P.st[ACC] >= 1
        THEN RN!Predictive(x, at[a].K, hs[a], mem.dtacc, mem.erracc, o)
        ELSE RN!Classical(x, at[a].K, o)
      prop(x) ==
        LET d == FMin(FDiv(FAbs(h), ratio(ne, x)), o.dtmax)
        IN IF rejected THEN FMin(d, FAbs(h)) ELSE d
      pmin == FMul(prop(FAdd(A.err, etol(ne))), FSub(One, rel))
      pmax == FMul(prop(FMax(FLit("1e-10"), FSub(A.err, etol(ne)))), FAdd(One, rel))
      reach(d) == ReachR2(E.t, FMul(dirf, FDiv(d, o.quot1)), P.tf, S.dir)
      (* the last step may exceed dtmax by this factor *)
      stretch == FDiv(FLit("1.001"), FMin(One, o.quot1))
      isEnd == FNear(E.dt, FSub(P.tf, E.t), Zero, E9)
      isKeep == E.dt = E.dtp
      keepOk == FLe(FMul(FAbs(h), FMul(o.quot1, FSub(One, rel))), pmax)
                /\ FLe(pmin, FMul(FAbs(h), FMul(o.quot2, FAdd(One, rel))))
      g == [tf |-> P.tf, dir |-> S.dir, max |-> o.max_steps, cb |-> S.cb, acc |-> acc, hs |-> hs,
            dnew |-> IF isEnd /\ ~isKeep THEN FMul(dirf, FLit("1e300")) ELSE FMul(E.dt, FLit("0.5")),
            keep |-> isKeep /\ ks = {}, newj |-> ks # {}]
      body == FoldR(c0, g, evs, 1)
      ctl == IF acc \/ body.ph = "cb" THEN body
             ELSE IF E.ret = "SingularMatrix" THEN R!Singular(body)
             ELSE R!Limit(R!Begin(body), g)
      begins == P.st[STEPS] + Cardinality({a \in 1..ne : ev0[a].ty = "A"})
      allKnown == \A a \in 1..ne : ev0[a].ty = "S" \/ known(a)
      width == VMean2(RN!Third(A.ze, 3), scal)
      okNewton(a, k) ==
        LET w == VSub(at[a].z[k + 1], at[a].zn[k])
            size == RN!IncNorm(VSub(at[a].zn[k], at[a].z[k]), scal)
        IN \/ FIsNaN(size) \/ FLt(FLit("1e30"), size)
           \/ FLe(RN!IncNorm(w, scal),
               FAdd(FAdd(FMul(size, FAdd(FLit("1e-6"), IF fd THEN FLit("1e-3") ELSE Zero)),
                         FMul(FMul(FInt(10), rho(a)), FAdd(size, RN!IncNorm(at[a].zn[k], scal)))),
                    FAdd(FLit("1e-5"), FMul(FInt(1000), at[a].noise))))
      (* starting values of attempt a: extrapolation to stage q *)
      ext == o.use_ext_col /\ P.st[ACC] > 0
      node == <<RN!C1, RN!C2, One>>
      okStart(a, q) ==
        LET z1 == RN!Third(at[a].z[1], q) IN
        IF ~ext THEN VNearV(z1, VZero(n), VScale(FLit("1e-13"), VAbs(P.u)))
        ELSE IF mem.z = << >> THEN TRUE
        ELSE LET x == FAdd(One, FMul(node[q], FDiv(hs[a], P.dtp)))
                 amp == FAdd(One, RN!CollocationAmp(x))
                 zm == VAdd(VAbs(RN!Third(mem.z, 1)), VAdd(VAbs(RN!Third(mem.z, 2)), VAbs(RN!Third(mem.z, 3))))
                 w == FAdd(FAdd(IF fd THEN FLit("1e-3") ELSE FLit("1e-5"), FMul(FInt(30), rho(a))), Zero)
                 tol == FMul(amp, FAdd(FAdd(FMul(w, VMean2(zm, scal)), FLit("1e-5")), FMul(FInt(1000), at[a].noise)))
                 dif == VMean2(VSub(z1, VSub(RN!CollocationAt(mem.z, x), RN!Third(mem.z, 3))), scal)
             IN ~FLt(tol, dif)
      (* what must have been kept *)
      must == /\ A.fast
              /\ ~reach(FMul(pmax, FLit("1.001")))
              /\ FLt(FMul(FAbs(h), FMul(o.quot1, FAdd(One, rel))), pmin)
              /\ FLt(pmax, FMul(FAbs(h), FMul(o.quot2, FSub(One, rel))))
      failed(a) == ev0[a].ty = "A" /\ (a < ne \/ ~acc)
      gaveUp(a) == failed(a) /\ clear(a) /\ ev0[a].est = 0 /\ at[a].conv = "no"
  IN
  IF (Len(cs) = 0 /\ r.nc > 0)
     (* differences that may vanish *)
     \/ (fd /\ (FLt(FLit("1e13"), VMaxAbs(P.u)) \/ FLt(FLit("1e13"), VMaxAbs(E.u))))
  THEN [bad |-> {}, m |-> [mem EXCEPT !.ok = FALSE]]
  ELSE IF "X" \in kinds \/ (acc /\ (ne = 0 \/ ev0[ne].ty # "A"))
  THEN [bad |-> {<<"C07", "evaluations are not those of the method">>,
                 <<"C11", "evaluations are not those of the method">>}
                \cup (IF \E q \in 1..Len(tk) : tk[q].k = "X" /\ cs[tk[q].p].k = "j"
                      THEN {<<"C22", "Jacobian at another point">>} ELSE {}),
        m |-> [mem EXCEPT !.ok = FALSE]]
  ELSE
  [bad |->
     (* C21 *)
     (IF ok
      THEN Flag(\A a \in 1..ne : ev0[a].ty = "A" /\ clear(a) => \A q \in 1..3 : okStart(a, q), "C21", "starting values")
      ELSE {})
     (* C22 *)
     \cup Flag(\A a \in 1..ne : failed(a) => ev0[a].newj, "C22", "no new Jacobian after a failed attempt")
     (* a singular matrix without one shows in the size of the attempt only *)
     \cup Flag(ne > 0 /\ ev0[1].ty = "A" => ~FLt(FAbs(ev0[1].h), FSub(FMul(FLit("0.7"), FAbs(c0.dt)), FMul(FInt(4), ulp))),
               "C22", "no new Jacobian after a singular matrix")
     \cup Flag(E.ret = "SingularMatrix" => mem.sing + Cardinality({a \in 1..ne : ev0[a].ty = "S"}) >= 4,
               "C22", "no new Jacobian after a singular matrix")
     \cup Flag(acc /\ E.ret = "Success" => ks = {}, "C22", "Jacobian after the last step")
     \cup Flag(chg => fresh, "C22", "no new Jacobian although a callback has changed the equation")
     \cup (IF ok /\ acc /\ E.ret = "Continue"
           THEN Flag(A.slow => ks # {}, "C22", "no new Jacobian although convergence is slow")
                \cup Flag(A.fast => ks = {}, "C22", "new Jacobian although convergence is fast")
                \cup Flag(A.slow /\ isKeep => isEnd \/ FBetween(FAbs(h), pmin, pmax), "C22", "step size is kept although convergence is slow")
                \cup Flag(must => isKeep, "C22", "step size is not kept")
                \cup Flag(isKeep => isEnd \/ FBetween(FAbs(h), pmin, pmax) \/ keepOk, "C22", "step size is kept although another is proposed")
           ELSE {})
     (* C23 *)
     \cup Flag(\A a \in 1..ne : ev0[a].ty = "A" => at[a].K <= o.max_newt_iter, "C23", "too many iterations")
     \cup (IF ok
           THEN Flag(\A a \in 1..ne : ev0[a].ty = "A" /\ clear(a) => ~at[a].late, "C23", "iterates although it does not converge")
                \cup Flag(\A a \in 1..ne : ev0[a].ty = "A" /\ clear(a) => ~at[a].idle /\ ~early1(a), "C23", "iterates although it has converged")
                \cup Flag(\A a \in 1..ne : gaveUp(a) => ~at[a].hasty, "C23", "gives up too early")
                \cup Flag(\A a \in 1..ne : gaveUp(a) /\ at[a].shrink # << >> /\ (a = ne \/ (ev0[a + 1].ty = "A" /\ clear(a + 1)))
                            => FNear(FDiv(hs[a + 1], hs[a]), at[a].shrink, Zero,
                                     FAdd(FAdd(FLit("1e-4"), at[a].unsure), FMul(FInt(2), FAdd(rho(a), IF a = ne THEN Zero ELSE rho(a + 1))))),
                          "C23", "size after giving up")
           ELSE {})
     (* C07 *)
     \cup
     (IF ok THEN
        Flag(\A a \in 1..ne : ev0[a].ty = "A" /\ clear(a) => \A k \in 1..(at[a].K - 1) : okNewton(a, k),
             "C07", "Newton iteration does not use the matrices of its step size")
        \cup Flag(acc => A.conv # "no", "C07", "step accepted without convergence")
        \cup Flag(acc /\ A.K = 1 => ~early, "C07", "step accepted without convergence after one iteration")
        \cup Flag(acc => FLe(VMean2(VSub(VSub(E.u, P.u), RN!Third(A.ze, 3)), scal),
                             FAdd(FMul(width, IF fd THEN FLit("1e-3") ELSE FLit("1e-6")), FAdd(FLit("1e-5"), FMul(FInt(1000), A.noise)))),
                  "C07", "new state is not the result of the Newton iteration")
      ELSE {})
     \cup (IF acc /\ Has(r, "w") /\ S.jac \notin {"zero", "wrong"}
           THEN LET wz == RN!Cat3(r.w[1], r.w[2], r.w[3])
                    res(q) == VSub(r.w[q], VScale(h, VLin(RN!A[q], <<r.w[4], r.w[5], r.w[6]>>)))
                    good == \A q \in 1..3 : FLe(VMean2(res(q), scal), FLit("1e-3"))
                    dist == VMean2(VSub(VSub(E.u, P.u), r.w[3]), scal)
                (* the first rates of convergence of a nonlinear equation may deceive *)
                IN Flag(good /\ (A.K >= 3 \/ (r.lin /\ (A.K = 2 \/ FLe(A.d1, o.fnewt)))) => FLe(dist, FLit("5")), "C07", "new state is not the solution of the collocation equations")
           ELSE {})
     (* C05 *)
     \cup (IF ok THEN
        Flag(acc => FLe(FSub(A.err, etol(ne)), One), "C05", "step accepted although its error is too large")
        \cup Flag(\A a \in 1..(IF acc THEN ne - 1 ELSE ne) :
                    (ev0[a].ty = "A" /\ known(a) /\ evs[a].rejected /\ clear(a)) => ~FLt(FAdd(at[a].err, etol(a)), One),
                  "C05", "step rejected although its error is small")
        \cup Flag(\A a \in 1..ne : ev0[a].ty = "A" /\ ev0[a].est # 0 /\ clear(a) =>
                    /\ P.st[ACC] = 0 \/ a > 1
                    /\ ~FLt(at[a].first, FLit("1e150")) \/ FLe(VMean2(VSub(VSub(cs[ev0[a].est].u, P.u), at[a].v1), scal),
                           FAdd(FMul(FMul(FInt(10), rel), at[a].first), FMul(FInt(10), at[a].noise))),
                  "C05", "refined error estimate")
        \cup Flag(\A a \in 1..ne : (ev0[a].ty = "A" /\ ev0[a].est = 0 /\ known(a) /\ (evs[a].rejected \/ (acc /\ a = ne)) /\ clear(a)
                                    /\ (P.st[ACC] = 0 \/ a > 1)) => ~FLt(FAdd(FLit("1.01"), FMul(FInt(10), at[a].noise)), at[a].first),
                  "C05", "error estimate is not refined")
      ELSE {})
     (* C08 *)
     \cup Flag(ne >= 1 /\ ev0[1].ty = "A" =>
                 FNear(IF ne = 1 /\ acc THEN E.dtp ELSE ev0[1].h, c0.dt, FMul(FInt(4), ulp), E9),
               "C08", "first attempt does not have the proposed size")
     \cup Flag(\A a \in 1..ne : (a < ne \/ ~acc) /\ ev0[a].ty = "A" /\ (a = ne \/ ev0[a + 1].ty = "A") /\ clear(a)
                 => FLt(FAbs(hs[a + 1]), FAbs(hs[a])), "C08", "failed attempt does not shrink")
     \cup Flag(\A a \in 2..ne : ev0[a].ty = "A" /\ ev0[a - 1].ty = "S" /\ (a = 2 \/ ev0[a - 2].ty = "A")
                 => FNear(hs[a], FMul(FLit("0.5"), IF a = 2 THEN c0.dt ELSE hs[a]), FMul(FInt(8), ulp), IF a = 2 THEN E9 ELSE One),
               "C08", "singular attempt is not halved")
     \cup Flag(\A a \in 1..ne : ev0[a].ty = "A" /\ clear(a)
                 => FLe(FAbs(hs[a]), FMul(stretch, FMax(o.dtmax, IF S.cb THEN FAbs(P.dt) ELSE Zero))),
               "C08", "attempt larger than dtmax")
     \cup Flag(E.ret = "Continue" => FLt(Zero, FMul(E.dt, dirf)) /\ FLe(FAbs(E.dt), FMul(stretch, FMax(o.dtmax, IF S.cb THEN FAbs(P.dt) ELSE Zero))), "C08", "proposal has the wrong direction or exceeds dtmax")
     \cup (IF ok THEN
        Flag(acc /\ E.ret = "Continue" =>
               \/ isEnd /\ reach(pmax)
               \/ FBetween(FAbs(E.dt), pmin, pmax) /\ ~reach(pmin)
               \/ isKeep /\ keepOk /\ ~reach(pmin), "C08", "proposal after an accepted step")
        \cup Flag(\A a \in 1..(IF acc THEN ne - 1 ELSE ne) :
                    (ev0[a].ty = "A" /\ known(a) /\ evs[a].rejected /\ clear(a) /\ (a = ne \/ (ev0[a + 1].ty = "A" /\ clear(a + 1)))) =>
                    LET q == FDiv(FAbs(hs[a]), FAbs(hs[a + 1])) IN
                    IF P.st[ACC] = 0 THEN FNear(q, FInt(10), Zero, FLit("1e-5"))
                    ELSE IF FIsNaN(at[a].err) THEN FNear(q, o.facl, Zero, FLit("1e-5"))
                    ELSE FBetween(q, FMul(RN!Classical(FSub(at[a].err, etol(a)), at[a].K, o), FSub(One, rel)),
                                     FMul(RN!Classical(FAdd(at[a].err, etol(a)), at[a].K, o), FAdd(One, rel))),
                  "C08", "size after a rejected attempt")
        \cup Flag(\A a \in 1..(IF acc THEN ne - 1 ELSE ne) :
                    (ev0[a].ty = "A" /\ known(a) /\ ~evs[a].rejected /\ clear(a) /\ (a = ne \/ (ev0[a + 1].ty = "A" /\ clear(a + 1)))) =>
                    FLe(FAbs(hs[a + 1]), FMul(FAbs(hs[a]), FLit("0.800001"))),
                  "C08", "size after a failed Newton iteration")
      ELSE {})
     (* C11, C03 *)
     \cup Flag(E.st[FEV] = ctl.fev, "C11", "function evaluations")
     \cup Flag(E.st[JEV] = ctl.jev, "C11", "Jacobian evaluations")
     \cup Flag(E.st[LS] = ctl.nls, "C11", "linear solves")
     \cup Flag(ok \/ ~fd => E.st[DEC] = ctl.ndec, "C11", "factorizations")
     \cup Flag(E.st[STEPS] = ctl.steps, "C11", "steps")
     \cup Flag(E.st[ACC] = ctl.acc, "C11", "accepted steps")
     \cup Flag(ok /\ allKnown => E.st[REJ] = ctl.nrej, "C11", "rejected steps")
     \cup Flag(E.st[REJ] >= P.st[REJ] /\ E.st[REJ] <= P.st[REJ] + ne, "C11", "rejected steps")
     \cup Flag(\A a \in 1..ne : ev0[a].ty = "A" => ~SmallR(FMul(ev0[a].h, FLit("1.25")), P.t), "C03", "goes on with a step size below the resolution")
     \cup Flag(begins < o.max_steps, "C03", "goes on beyond the step limit")
     \cup Flag(E.ret = ctl.ret, "C03", "code")
     (* C12 *)
     \cup Flag(S.cb => tk # << >> /\ tk[1].k = "R", "C12", "derivative is not evaluated at the state the callback left")
     \cup Flag(ok /\ S.cb /\ acc => FLe(FSub(A.err, etol(ne)), FLit("1.5")), "C12", "error estimate does not use the state the callback left")
     (* C20 *)
     \cup (IF Has(r, "d") /\ acc /\ ok
           THEN Flag(\A q \in 1..Len(r.d) :
                  LET sf == FDiv(FSub(r.d[q].t, P.t), h)
                      w == FDiv(FMul(FInt(8), ulp), FAbs(h))
                      za == VAdd(VAbs(RN!Third(A.ze, 1)), VAdd(VAbs(RN!Third(A.ze, 2)), VAbs(RN!Third(A.ze, 3))))
                      tol == VAdd(VAdd(VScale(FLit("1e-12"), VAdd(VAbs(P.u), VAbs(E.u))), VScale(FMul(FInt(20), w), za)),
                                  IF FEq(sf, Zero) \/ FEq(sf, One) THEN VScale(FLit("1e-12"), VAbs(RN!Third(A.ze, 1)))
                                  ELSE VAdd(VScale(FAdd(FLit("1e-2"), FMul(FInt(1000), A.noise)), scal),
                                            VScale(FLit("1e-5"), VAbs(VSub(E.u, P.u)))))
                  IN VDim(r.d[q].v) = n /\ VNearV(r.d[q].v, IF FEq(sf, One) THEN E.u ELSE VAdd(P.u, RN!CollocationAt(A.ze, sf)), tol),
                  "C20", "dense output")
           ELSE {}),
   m |-> [jac |-> jacAfter,
          f |-> IF acc THEN LET as == {q \in 1..Len(tk) : tk[q].k = "A"} IN
                            IF as = {} THEN mem.f ELSE cs[tk[CHOOSE q \in as : TRUE].p].o
                ELSE mem.f,
          u |-> E.u,
          fc |-> IF ne = 0 THEN fc0 ELSE FcBefore(at, ne + 1, fc0, "fc"),
          fh |-> IF ne = 0 THEN fh0 ELSE FcBefore(at, ne + 1, fh0, "fh"),
          z |-> IF acc THEN IF ok /\ VIsFin(A.ze) THEN A.ze ELSE << >> ELSE mem.z,
          dtacc |-> IF acc /\ o.modern_pred THEN h ELSE mem.dtacc,
          erracc |-> IF acc /\ o.modern_pred THEN FMax(FLit("1e-2"), A.err) ELSE mem.erracc,
          sing |-> mem.sing + Cardinality({a \in 1..ne : ev0[a].ty = "S"}),
          keep |-> acc /\ E.ret = "Continue" /\ isKeep /\ ks = {},
          ok |-> ok]]

-----------------------------------------------------------------------------
Mem0(S) ==
  IF S.alg = "dp5" THEN [fo |-> FLit("1e-4")]
  ELSE [jac |-> IF Has(S, "b") THEN BuildJac(S) ELSE << >>, dtacc |-> Zero, erracc |-> Zero, sing |-> 0, keep |-> FALSE,
        f |-> S.k1, u |-> << >>, fc |-> One, fh |-> One, z |-> << >>,
        ok |-> Has(S, "b") /\ BuildJac(S) # << >>]

StepResult(S, k, mem) ==
  LET r == S.steps[k]
      P == Pre(S, k)
  IN IF r.broken THEN [bad |-> {}, m |-> mem]
     ELSE LET a == IF P.ret # "Continue" THEN [bad |-> {}, m |-> mem]
                   ELSE IF S.alg = "dp5" THEN Dp5Bad(S, P, r, TrueK1(S, k), mem)
                   ELSE RadauBad(S, P, r, TrueK1(S, k), mem)
          IN [bad |-> CommonBad(S, P, r) \cup a.bad, m |-> a.m]

Init ==
  /\ s \in 1..Len(Log)
  /\ i = 0
  /\ m = Mem0(Log[s])
  /\ bad = InitBad(Log[s]) \cup (IF Len(Steps(Log[s])) = 0 THEN EndBad(Log[s]) ELSE {})

Next ==
  /\ i < Len(Steps(Log[s]))
  /\ i' = i + 1
  /\ LET a == StepResult(Log[s], i + 1, m)
     IN /\ m' = a.m
        /\ bad' = a.bad \cup (IF i + 1 = Len(Steps(Log[s])) THEN EndBad(Log[s]) ELSE {})
  /\ UNCHANGED s

TypeX == TRUE
AllGood == bad = {}
Good == \A b \in bad : b[1] # Prop
=============================================================================
