------------------------------ MODULE MCRadau ------------------------------
(* All behaviours of the Radau5 control flow over small integers. *)
EXTENDS Integers, TLC

CONSTANTS Starts, Dist, DtMax, Grow, Limits, Codes, Moves,
          Iters,    \* numbers of Newton iterations
          Ahead     \* percentage of the step size that must fit; other than 101 breaks the model

VARIABLES g, c, h

Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
vars == <<g, c, h>>

R == INSTANCE Radau WITH
       Plus     <- LAMBDA a, b : a + b,
       Minus    <- LAMBDA a, b : a - b,
       Half     <- LAMBDA a : IF a < 0 THEN -((-a) \div 2) ELSE a \div 2,
       Reaches  <- LAMBDA t, dt, tf, dir : (100 * t + Ahead * dt - 100 * tf) * dir >= 0,
       Reaches2 <- LAMBDA t, dt, tf, dir : (100 * t + Ahead * dt - 100 * tf) * dir >= 0,
       TooSmall <- LAMBDA dt, t : dt = 0

Init ==
  \E t0 \in Starts, dir \in {1, -1}, max \in Limits, cb \in BOOLEAN, d \in 1..DtMax :
    /\ g = [t0 |-> t0, tf |-> t0 + dir * Dist, dir |-> dir, max |-> max, cb |-> cb, d0 |-> d,
            mv |-> IF cb THEN Moves ELSE 0]
    /\ c = R!Fresh(t0, dir * d)
    /\ h = [start |-> 0, cbs |-> 0, its |-> 0, fail |-> 0, sing |-> 0, est |-> 0,
            newj |-> 0, chg |-> 0, att |-> 0, keep |-> 0, go |-> 0, rej0 |-> 0, rej |-> 0]

Start ==
  /\ R!CanStart(c)
  /\ c' = R!Start(c, g)
  /\ h' = [h EXCEPT !.start = @ + 1, !.chg = @ + IF c.chg THEN 1 ELSE 0]
  /\ UNCHANGED g

Singular ==
  /\ c.ph = "try" /\ R!CanSingular(c) /\ c.dt # 0
  /\ c' = R!Singular(c)
  /\ h' = [h EXCEPT !.sing = @ + 1]
  /\ UNCHANGED g

Begin ==
  /\ c.ph = "try"
  /\ c' = R!Begin(c)
  /\ h' = [h EXCEPT !.att = @ + 1, !.keep = @ + IF c.dec THEN 0 ELSE 1]
  /\ UNCHANGED g

Limit ==
  /\ c.ph = "newt" /\ R!AtLimit(c, g)
  /\ c' = R!Limit(c, g)
  /\ UNCHANGED <<g, h>>

NewtonFail ==
  /\ c.ph = "newt" /\ ~R!AtLimit(c, g)
  /\ \E k \in Iters, d \in 0..(Abs(c.dt) - 1) :
       /\ c' = R!NewtonFail(c, k, g.dir * d)
       /\ h' = [h EXCEPT !.its = @ + k, !.fail = @ + 1]
  /\ UNCHANGED g

Reject ==
  /\ c.ph = "newt" /\ ~R!AtLimit(c, g)
  /\ \E k \in Iters, est \in {FALSE, R!CanRefine(c)}, d \in 0..(Abs(c.dt) - 1) :
       /\ c' = R!Reject(c, k, est, g.dir * d)
       /\ h' = [h EXCEPT !.its = @ + k, !.rej = @ + 1,
                         !.est = @ + (IF est THEN 1 ELSE 0),
                         !.rej0 = @ + IF c.acc = 0 THEN 1 ELSE 0]
  /\ UNCHANGED g

Accept ==
  /\ c.ph = "newt" /\ ~R!AtLimit(c, g)
  /\ \E k \in Iters, est \in {FALSE, R!CanRefine(c)},
        d \in 0..Min(DtMax, IF c.rej THEN Abs(c.dt) ELSE Grow * Abs(c.dt)),
        keep \in BOOLEAN, newj \in BOOLEAN :
       /\ keep => d >= Abs(c.dt) /\ ~newj
       /\ c' = R!Accept(c, g, k, est, g.dir * d, keep, newj)
       /\ h' = [h EXCEPT !.its = @ + k, !.est = @ + (IF est THEN 1 ELSE 0),
                         !.go = @ + (IF c.last THEN 0 ELSE 1),
                         !.newj = @ + IF newj /\ ~c.last THEN 1 ELSE 0]
  /\ UNCHANGED g

Callback ==
  /\ c.ph = "cb"
  /\ IF g.cb
     THEN \E r \in {c.ret} \cup Codes, d \in {Abs(c.dt), 0, 1, DtMax}, chg \in BOOLEAN :
            c' = R!Callback(c, r, g.dir * d, chg)
     ELSE c' = R!Callback(c, c.ret, c.dt, FALSE)
  /\ h' = [h EXCEPT !.cbs = @ + 1]
  /\ \/ UNCHANGED g
     \/ /\ g.mv > 0 /\ c'.ret = "Continue"
        /\ \E d \in 1..Dist :
             /\ c.t + g.dir * d # g.tf
             /\ g' = [g EXCEPT !.tf = c.t + g.dir * d, !.mv = @ - 1]

Next == Start \/ Singular \/ Begin \/ Limit \/ NewtonFail \/ Reject \/ Accept \/ Callback
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C02 *)
NoOvershoot == (g.tf - c.t) * g.dir >= 0 /\ (c.t - g.t0) * g.dir >= 0
Advances == [][c'.t # c.t \/ c'.nrec # c.nrec => (c'.t - c.t) * g.dir > 0]_vars
AttemptInside == c.ph = "newt" => c.dt * g.dir >= 0 /\ (g.tf - c.t - c.dt) * g.dir >= 0
Lands == c.ret = "Success" => c.t = g.tf
(* C03 *)
SuccessIffThere == c.ph = "cb" => (c.t = g.tf <=> c.ret = "Success")
LimitTrue == c.ret = "MaxIters" /\ c.ph = "cb" => c.steps = g.max /\ c.t # g.tf
LimitKept == c.steps <= g.max
SmallTrue == c.ret = "DtLessThanMin" /\ c.ph = "cb" => c.dt = 0
SingTrue == c.ret = "SingularMatrix" => c.nsing = 5
SingKept == c.nsing <= 5
(* C04 *)
Absorbing == [][c.ph = "idle" /\ c.ret # "Continue" => UNCHANGED <<c, h>>]_vars
(* C07: the matrices in use belong to the step size in use *)
FreshMatrices == c.ph = "newt" => c.luh = c.dt
(* C09 *)
Books == /\ c.nrec = c.acc + 1
         /\ c.ph = "cb" /\ c.ret \in {"Continue", "Success"} => c.tp + c.dtp = c.t
(* C11 *)
Counts == /\ c.steps = h.att
          /\ c.nls = h.its
          /\ c.ndec = h.att - h.keep
          /\ c.fev = 3 * h.its + h.est + h.go + IF g.cb THEN h.start ELSE 0
          /\ c.nrej = h.rej - h.rej0
          /\ c.jev = h.newj + h.chg + h.fail + h.rej + h.sing
                     - IF c.nsing = 5 THEN 1 ELSE 0
(* C12 *)
FreshJacobian == c.ph = "newt" => ~c.chg
OneCallback == h.cbs = h.start - IF c.ph = "idle" THEN 0 ELSE 1
(* C08 *)
FailShrinks ==
  [][c.ph \in {"try", "newt"} /\ c'.ph = "try" => Abs(c'.dt) < Abs(c.dt)]_vars
NoGrowthAfterReject ==
  [][c.ph = "newt" /\ c'.ph = "cb" /\ c.rej /\ c'.ret = "Continue"
     => Abs(c'.dt) <= Abs(c.dt)]_vars
(* Claims that must fail: situations that have to occur. *)
NeverSuccess == c.ret # "Success"
NeverLimit == c.ret # "MaxIters"
NeverSmall == c.ret # "DtLessThanMin"
(* a final time that has been moved *)
NeverMoved == ~(c.ret = "Success" /\ g.cb /\ g.mv = 0 /\ Moves > 0)
NeverFailure == c.ret # "Failure"
NeverSingular == c.ret # "SingularMatrix"
NeverRecovered == c.ret = "Success" => c.nrej = 0 \/ h.fail = 0
NeverKept == h.keep = 0
NeverChanged == h.chg = 0
(* C01 *)
Ends == <>(c.ret # "Continue" /\ c.ph = "idle")
=============================================================================
