------------------------------- MODULE Radau -------------------------------
(***************************************************************************)
(* Control flow of the Radau5 stepper. Same conventions as module Dp5;     *)
(* additional fields of the control record:                                *)
(*   first       no step has been accepted yet                             *)
(*   dec         the iteration matrices must be factored before use        *)
(*   luh         step size the factored matrices belong to                 *)
(*   nsing       singular factorizations so far                            *)
(*   chg         a callback has changed the equation or the state since the  *)
(*               Jacobian was evaluated                                    *)
(*   jev, ndec, nls   Jacobians, factorizations, linear solves             *)
(* One call of step() is: Start, any number of failed attempts (Singular,  *)
(* Newton failure, Reject), then Accept or an attempt that ends the run    *)
(* (Singular for the fifth time, Limit), then Callback. An attempt first   *)
(* factors the matrices if dec is set, then is counted and compared with   *)
(* the limits, then iterates.                                              *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS
  Plus(_, _), Minus(_, _), Half(_),
  Reaches(_, _, _, _),   \* at the start of a step: 1.0001 dt reaches tf
  Reaches2(_, _, _, _),  \* after an accepted step: dt / quot1 reaches tf
  TooSmall(_, _)

MaxSing == 5

Fresh(t0, dt0) ==
  [t |-> t0, dt |-> dt0, tp |-> t0, dtp |-> dt0, last |-> FALSE, rej |-> FALSE,
   first |-> TRUE, dec |-> TRUE, luh |-> dt0, nsing |-> 0, chg |-> FALSE,
   ret |-> "Continue", steps |-> 0, acc |-> 0, nrej |-> 0, fev |-> 0, jev |-> 0,
   ndec |-> 0, nls |-> 0, nrec |-> 1, ph |-> "idle"]

CanStart(c) == c.ph = "idle" /\ c.ret = "Continue"

(* g.cb: there is a callback. *)
Start(c, g) ==
  LET end == Reaches(c.t, c.dt, g.tf, g.dir)
  IN [c EXCEPT !.ph = "try",
               !.last = end,
               !.dt = IF end THEN Minus(g.tf, c.t) ELSE c.dt,
               !.dec = @ \/ end \/ g.cb,
               !.fev = @ + IF g.cb THEN 1 ELSE 0,
               !.jev = @ + IF c.chg THEN 1 ELSE 0,
               !.chg = FALSE]

(* The factorization fails. *)
CanSingular(c) == c.dec
Singular(c) ==
  IF c.nsing + 1 >= MaxSing
  THEN [c EXCEPT !.nsing = @ + 1, !.ret = "SingularMatrix", !.ph = "cb"]
  ELSE [c EXCEPT !.nsing = @ + 1, !.dt = Half(@), !.rej = TRUE, !.last = FALSE,
                 !.jev = @ + 1]

(* The attempt begins: matrices are current, the attempt is counted. *)
Begin(c) ==
  [c EXCEPT !.luh = IF c.dec THEN c.dt ELSE @,
            !.ndec = @ + IF c.dec THEN 1 ELSE 0,
            !.dec = FALSE,
            !.steps = @ + 1,
            !.ph = "newt"]

AtLimit(c, g) == c.steps >= g.max \/ TooSmall(c.dt, c.t)
Limit(c, g) ==
  [c EXCEPT !.ret = IF c.steps >= g.max THEN "MaxIters" ELSE "DtLessThanMin",
            !.ph = "cb"]

(* k Newton iterations without convergence. *)
NewtonFail(c, k, dnew) ==
  [c EXCEPT !.fev = @ + 3 * k, !.nls = @ + k, !.dt = dnew, !.rej = TRUE,
            !.last = FALSE, !.jev = @ + 1, !.dec = TRUE, !.ph = "try"]

(* k Newton iterations, then the error test; est: the estimate was refined
   with one more evaluation. *)
CanRefine(c) == c.first \/ c.rej
Reject(c, k, est, dnew) ==
  [c EXCEPT !.fev = @ + 3 * k + (IF est THEN 1 ELSE 0), !.nls = @ + k,
            !.dt = dnew, !.rej = TRUE, !.last = FALSE, !.jev = @ + 1,
            !.dec = TRUE, !.ph = "try", !.nrej = @ + IF c.acc >= 1 THEN 1 ELSE 0]

(* dnew: proposal of the controller. keep: step size and matrices stay.
   newj: the Jacobian is evaluated at the new point. *)
Accept(c, g, k, est, dnew, keep, newj) ==
  LET t1 == Plus(c.t, c.dt)
      d  == [c EXCEPT !.fev = @ + 3 * k + (IF est THEN 1 ELSE 0), !.nls = @ + k,
                      !.first = FALSE, !.acc = @ + 1, !.tp = c.t, !.dtp = c.dt,
                      !.t = t1, !.nrec = @ + 1, !.ph = "cb", !.dec = TRUE]
      end == Reaches2(t1, dnew, g.tf, g.dir)
  IN IF c.last
     THEN [d EXCEPT !.ret = "Success"]
     ELSE [d EXCEPT !.fev = @ + 1, !.rej = FALSE,
                    !.last = end,
                    !.dt = IF end THEN Minus(g.tf, t1)
                           ELSE IF keep THEN @ ELSE dnew,
                    !.dec = end \/ ~keep,
                    !.jev = @ + IF newj /\ (end \/ ~keep) THEN 1 ELSE 0]

Callback(c, ret, dnew, chg) ==
  [c EXCEPT !.ph = "idle", !.ret = ret, !.dt = dnew, !.chg = chg]
=============================================================================
