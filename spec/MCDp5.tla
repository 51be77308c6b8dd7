------------------------------- MODULE MCDp5 -------------------------------
(* All behaviours of the Dormand-Prince control flow over small integers. *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Starts,   \* start times
          Dist,      \* length of the interval
          DtMax,    \* largest proposal
          Grow,     \* largest ratio of consecutive step sizes
          Limits,   \* step limits
          Codes,    \* codes a callback may set
          Moves,    \* how often a callback may move the final time
          Ahead,    \* percentage of the step size that must fit; other than 101 breaks the model
          Guard     \* the step size is tested before each attempt; FALSE breaks the model

VARIABLES g,   \* configuration
          c,   \* control record
          h    \* counts: attempts, started steps, callback calls

Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b

D == INSTANCE Dp5 WITH
       Plus     <- LAMBDA a, b : a + b,
       Minus    <- LAMBDA a, b : a - b,
       Reaches  <- LAMBDA t, dt, tf, dir : (100 * t + Ahead * dt - 100 * tf) * dir > 0,
       TooSmall <- LAMBDA dt, t : dt = 0

Init ==
  \E t0 \in Starts, dir \in {1, -1}, max \in Limits, cb \in BOOLEAN, d \in 1..DtMax :
    /\ g = [t0 |-> t0, tf |-> t0 + dir * Dist, dir |-> dir, max |-> max, cb |-> cb, d0 |-> d,
            mv |-> IF cb THEN Moves ELSE 0]
    /\ c = D!Fresh(t0, dir * d)
    /\ h = [att |-> 0, start |-> 0, cbs |-> 0, att0 |-> 0]

Start ==
  /\ D!CanStart(c)
  /\ c' = IF Guard THEN D!Start(c, g) ELSE [D!Start(c, g) EXCEPT !.ph = "try", !.ret = c.ret]
  /\ h' = [h EXCEPT !.start = @ + 1]
  /\ UNCHANGED g

Accept ==
  /\ c.ph = "try"
  /\ \E d \in 0..Min(DtMax, IF c.rej THEN Abs(c.dt) ELSE Grow * Abs(c.dt)) :
       c' = D!Accept(c, g, g.dir * d)
  /\ h' = [h EXCEPT !.att = @ + 1]
  /\ UNCHANGED g

Reject ==
  /\ c.ph = "try"
  /\ \E d \in 0..(Abs(c.dt) - 1) : c' = D!Reject(c, g, g.dir * d)
  /\ h' = [h EXCEPT !.att = @ + 1, !.att0 = @ + IF c.acc = 0 THEN 1 ELSE 0]
  /\ UNCHANGED g

Callback ==
  /\ c.ph = "cb"
  /\ IF g.cb
     THEN \E r \in {c.ret} \cup Codes, d \in {Abs(c.dt)} \cup 0..DtMax :
            c' = D!Callback(c, r, g.dir * d)
     ELSE c' = D!Callback(c, c.ret, c.dt)
  /\ h' = [h EXCEPT !.cbs = @ + 1]
  /\ \/ UNCHANGED g
     \/ /\ g.mv > 0 /\ c'.ret = "Continue"
        /\ \E d \in 1..Dist :
             /\ c.t + g.dir * d # g.tf
             /\ g' = [g EXCEPT !.tf = c.t + g.dir * d, !.mv = @ - 1]

Next == Start \/ Accept \/ Reject \/ Callback
Spec == Init /\ [][Next]_<<g, c, h>> /\ WF_<<g, c, h>>(Next)

Final == {"Success", "MaxIters", "DtLessThanMin"}

(* C02 *)
NoOvershoot == (g.tf - c.t) * g.dir >= 0 /\ (c.t - g.t0) * g.dir >= 0
Advances == [][c'.t # c.t \/ c'.nrec # c.nrec => (c'.t - c.t) * g.dir > 0]_<<g, c, h>>
AttemptInside == c.ph = "try" => c.dt * g.dir > 0 /\ (g.tf - c.t - c.dt) * g.dir >= 0
Lands == c.ret = "Success" => c.t = g.tf
(* C03 *)
SuccessIffThere == c.ph = "cb" => (c.t = g.tf <=> c.ret = "Success")
LimitTrue == c.ret = "MaxIters" /\ c.ph = "cb" => c.steps = g.max /\ c.t # g.tf
LimitKept == c.steps <= g.max
SmallTrue == c.ret = "DtLessThanMin" /\ c.ph = "cb" => c.dt = 0
ContinueTrue == c.ret = "Continue" => c.steps < g.max
(* C04 *)
Absorbing == [][c.ph = "idle" /\ c.ret # "Continue" => UNCHANGED <<c, h>>]_<<g, c, h>>
(* C09, C11 *)
Books == /\ c.nrec = c.acc + 1
         /\ c.steps = c.acc
         /\ c.ph = "cb" /\ c.ret # "DtLessThanMin" => c.tp + c.dtp = c.t
         /\ c.fev = 6 * h.att + IF g.cb THEN h.start ELSE 0
         /\ c.acc + c.nrej + h.att0 = h.att
(* C12 *)
OneCallback == h.cbs = h.start - IF c.ph = "idle" THEN 0 ELSE 1
(* C08 *)
NoGrowthAfterReject ==
  [][c.ph = "try" /\ c'.ph = "cb" /\ c.rej /\ c'.ret # "DtLessThanMin"
     => Abs(c'.dt) <= Abs(c.dt)]_<<g, c, h>>
RejectShrinks ==
  [][c.ph = "try" /\ c'.t = c.t => Abs(c'.dt) < Abs(c.dt)]_<<g, c, h>>
(* Claims that must fail: situations that have to occur. *)
NeverSuccess == c.ret # "Success"
NeverLimit == c.ret # "MaxIters"
NeverSmall == c.ret # "DtLessThanMin"
(* a final time that has been moved *)
NeverMoved == ~(c.ret = "Success" /\ g.cb /\ g.mv = 0 /\ Moves > 0)
NeverFailure == c.ret # "Failure"
NeverSmallAtOnce == ~(c.ret = "DtLessThanMin" /\ h.att = c.acc)
NeverRecovered == c.ret = "Success" => c.nrej < 2 /\ h.att0 < 2
(* C01 *)
Ends == <>(c.ret # "Continue" /\ c.ph = "idle")
=============================================================================
