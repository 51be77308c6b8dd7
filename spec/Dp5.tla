-------------------------------- MODULE Dp5 --------------------------------
(***************************************************************************)
(* Control flow of the Dormand-Prince stepper.                             *)
(*                                                                         *)
(* One call of step() is: Start, any number of Reject, then either Accept  *)
(* or a Reject whose new step size is too small, then Callback. A step     *)
(* size that is too small at the start leads to Callback at once. Numbers  *)
(* are abstract: the model checker instantiates them with integers (module *)
(* MCDp5), the trace specification with doubles (module TraceRun).         *)
(*                                                                         *)
(* The control record c has the fields                                     *)
(*   t, dt       current time, size of the next attempt                    *)
(*   tp, dtp     time before the last accepted step, size of last attempt  *)
(*   last        the running step is meant to reach the final time         *)
(*   rej         an attempt of the running step has been rejected          *)
(*   ret         return code                                               *)
(*   steps, acc, nrej, fev   statistics                                    *)
(*   nrec        number of recorded points                                 *)
(*   ph          phase: "idle", "try" or "cb"                              *)
(* The configuration g has the fields tf, dir, max (step limit), cb.       *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  Plus(_, _), Minus(_, _),
  Reaches(_, _, _, _),  \* Reaches(t, dt, tf, dir): 1.01 dt leads past tf
  TooSmall(_, _)        \* TooSmall(dt, t): dt is below the resolution of t

Fresh(t0, dt0) ==
  [t |-> t0, dt |-> dt0, tp |-> t0, dtp |-> dt0, last |-> FALSE, rej |-> FALSE,
   ret |-> "Continue", steps |-> 0, acc |-> 0, nrej |-> 0, fev |-> 0,
   nrec |-> 1, ph |-> "idle"]

CanStart(c) == c.ph = "idle" /\ c.ret = "Continue"

Start(c, g) ==
  LET end == Reaches(c.t, c.dt, g.tf, g.dir)
      small == ~end /\ TooSmall(c.dt, c.t)
  IN [c EXCEPT !.ph = IF small THEN "cb" ELSE "try",
               !.ret = IF small THEN "DtLessThanMin" ELSE @,
               !.last = end,
               !.dt = IF end THEN Minus(g.tf, c.t) ELSE c.dt,
               !.fev = @ + IF g.cb THEN 1 ELSE 0]

Accept(c, g, dnew) ==
  [c EXCEPT !.t = Plus(c.t, c.dt), !.tp = c.t, !.dtp = c.dt, !.dt = dnew,
            !.rej = FALSE, !.fev = @ + 6, !.acc = @ + 1, !.steps = @ + 1,
            !.nrec = @ + 1, !.ph = "cb",
            !.ret = IF c.last THEN "Success"
                    ELSE IF c.steps + 1 >= g.max THEN "MaxIters"
                    ELSE "Continue"]

Reject(c, g, dnew) ==
  LET small == TooSmall(dnew, c.t)
  IN [c EXCEPT !.dtp = c.dt, !.dt = dnew, !.rej = TRUE, !.last = FALSE,
               !.fev = @ + 6,
               !.nrej = @ + IF c.acc >= 1 THEN 1 ELSE 0,
               !.ret = IF small THEN "DtLessThanMin" ELSE @,
               !.ph = IF small THEN "cb" ELSE "try"]

(* The callback may change the return code and the step size. *)
Callback(c, ret, dnew) == [c EXCEPT !.ph = "idle", !.ret = ret, !.dt = dnew]
=============================================================================
