------------------------------- MODULE Drive -------------------------------
(***************************************************************************)
(* The ways of driving integrators: step, integrate, the consuming and the *)
(* borrowing iterator, in any mixture, on several integrators at once.     *)
(*                                                                         *)
(* What an integrator would do is fixed beforehand: run[w] is the sequence *)
(* of its step outcomes, TRUE for a step that records a point. Its last    *)
(* step ends the integration. pos[w] steps have been made.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* Number of points recorded by the first k steps (after the initial one). *)
Points(run, k) == Cardinality({j \in 1..k : run[j]})

Finished(run, k) == k = Len(run)

(* Position after an operation. *)
After(op, run, k) ==
  CASE op \in {"step", "next"} -> IF Finished(run, k) THEN k ELSE k + 1
    [] op = "integrate" -> Len(run)
    [] OTHER -> k

(* step and next return something: step as long as the integration goes on,
   next if a point was recorded. *)
Returns(op, run, k) ==
  LET l == After(op, run, k) IN
  CASE op = "step" -> ~Finished(run, l)
    [] op = "next" -> Points(run, l) > Points(run, k)
    [] OTHER -> FALSE

(* How an integrator is held: directly, inside a consuming iterator, or by a
   borrowing iterator, which it never leaves. *)
Modes == {"direct", "own", "borrow"}
Ops == {"step", "integrate", "next", "own", "free", "borrow", "look"}
Can(op, mode) ==
  CASE op = "own" -> mode = "direct"
    [] op = "free" -> mode = "own"
    [] op = "borrow" -> mode = "direct"
    [] op = "next" -> mode # "direct"
    [] OTHER -> TRUE
Mode(op, mode) ==
  CASE op = "own" -> "own" [] op = "free" -> "direct" [] op = "borrow" -> "borrow" [] OTHER -> mode
=============================================================================
