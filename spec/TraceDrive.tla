----------------------------- MODULE TraceDrive -----------------------------
(***************************************************************************)
(* Validates records of integrators driven by sequences of operations. The *)
(* reference of each integrator is the same scenario driven by step alone: *)
(* ref[w].x its first states, .last its last one, .n the number of         *)
(* recorded points after each step, .yt and .yu time and state after each  *)
(* step, .sol the recorded points.                                         *)
(***************************************************************************)
EXTENDS Drive, FiniteSets, TLC, Json

CONSTANTS TraceFile, Prop

VARIABLES s, i, pos, mode, bad
vars == <<s, i, pos, mode, bad>>

Log == ndJsonDeserialize(TraceFile)
Flag2(cond, p, why) == IF cond THEN {} ELSE {<<p, why>>}
Flag(cond, why) == Flag2(cond, "C10", why)

OpName(c) == CASE c = "s" -> "step" [] c = "i" -> "integrate" [] c = "n" -> "next" [] c = "o" -> "own"
               [] c = "f" -> "free" [] c = "b" -> "borrow" [] OTHER -> "look"
ModeName(c) == CASE c = "d" -> "direct" [] c = "o" -> "own" [] c = "b" -> "borrow" [] OTHER -> "gone"

Done(S) == IF "ops" \in DOMAIN S THEN S.ops ELSE << >>
RunOf(R) == [k \in 1..R.len |-> R.n[k + 1] > R.n[k]]
StateAt(R, k) == IF k = R.len THEN R.last ELSE R.x[k + 1]
VAt(R, k) == [t |-> <<R.yt[2*k + 1], R.yt[2*k + 2]>>, u |-> R.yu[k + 1]]

(* The pair yielded for the step from k to k+1: the point recorded then, or
   what the callback made of it. *)
PairOk(R, y, k) == y = VAt(R, k) \/ y = R.sol[R.n[k + 1]]

StepBad(S, o, p, md) ==
  LET R == S.ref[o.w]
      run == RunOf(R)
      op == OpName(o.op)
      k == IF o.op = "E" THEN R.len ELSE After(op, run, p)
  IN
  IF o.r = -2 THEN {<<"C10", "panic">>, <<"C01", "panic">>}
  ELSE
    (IF p = R.len
     THEN Flag2(o.x = R.last, "C04", "finished integration changes")
          \cup Flag2(o.r = -1 /\ o.y = << >>, "C04", "finished integration returns or yields something")
          \cup Flag2(o.c = 0, "C04", "evaluation after the end")
          \cup Flag2(o.cb = IF R.cb THEN p ELSE 0, "C04", "callback after the end")
     ELSE {})
    \cup Flag2(o.cb = IF R.cb THEN k ELSE 0, "C12", "callback is not called once for each step")
    \cup Flag(o.x = StateAt(R, k), "state differs from stepping by hand")
    \cup (IF o.op = "s"
          THEN Flag((o.r # -1) = Returns(op, run, p), "step returns the wrong thing")
               \cup Flag(o.r # -1 => o.r = StateAt(R, k).st[1], "step returns a wrong count")
          ELSE {})
    \cup (IF o.op = "n"
          THEN Flag((Len(o.y) = 1) = Returns(op, run, p), "iterator yields when it should not or the other way round")
               \cup Flag(Len(o.y) = 1 => PairOk(R, o.y[1], k), "iterator yields a wrong point")
          ELSE {})
    \cup (IF o.op = "E" /\ md # "direct"
          THEN Flag(Len(o.y) = Points(run, R.len) - Points(run, p), "drained iterator yields a wrong number of points")
               \cup Flag(Len(o.y) = Points(run, R.len) - Points(run, p) =>
                         \A q \in 1..Len(o.y) : PairOk(R, o.y[q], p + q), "drained iterator yields a wrong point")
          ELSE {})
    \cup (IF o.op \in {"l", "L"}
          THEN Flag(o.it = SubSeq(R.sol, 1, R.n[k + 1]), "iterating over the solution")
               \cup Flag(o.op = "L" => o.eat = R.sol, "consuming the solution")
          ELSE {})
    \cup Flag(ModeName(o.mode) = Mode(op, md), "harness: mode")

After2(S, o, p) == IF o.op = "E" THEN S.ref[o.w].len ELSE After(OpName(o.op), RunOf(S.ref[o.w]), p)

Start(S) == IF S.end = "hang" /\ S.phase = "ops" THEN {<<"C10", "does not come back although stepping by hand ends">>, <<"C01", "does not come back">>} ELSE {}

Init ==
  /\ s \in 1..Len(Log)
  /\ i = 0
  /\ pos = <<0, 0>>
  /\ mode = <<"direct", "direct">>
  /\ bad = Start(Log[s])

Next ==
  /\ i < Len(Done(Log[s]))
  /\ i' = i + 1
  /\ LET o == Log[s].ops[i + 1] IN
       /\ bad' = StepBad(Log[s], o, pos[o.w], mode[o.w])
       /\ pos' = [pos EXCEPT ![o.w] = IF o.r = -2 THEN @ ELSE After2(Log[s], o, @)]
       /\ mode' = [mode EXCEPT ![o.w] = Mode(OpName(o.op), @)]
  /\ UNCHANGED s

Good == \A b \in bad : b[1] # Prop
=============================================================================
