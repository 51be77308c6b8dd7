------------------------------ MODULE TraceMany -----------------------------
(***************************************************************************)
(* Judges the ends of runs in which every step has the same size: nothing  *)
(* changes, so every attempt is accepted and the largest step size is      *)
(* always proposed. The number of steps to the end is then known. The      *)
(* limits are far beyond what a step-by-step record can hold.              *)
(***************************************************************************)
EXTENDS F64, TLC, Json

CONSTANTS TraceFile, Prop
VARIABLES s, i, bad

Log == ndJsonDeserialize(TraceFile)
Cases(S) == IF "cases" \in DOMAIN S THEN S.cases ELSE << >>
Flag(cond, p, why) == IF cond THEN {} ELSE {<<p, why>>}

(* Steps that are accepted: all of them, or what the limit allows. Radau5 may
   count the attempt at which it finds the limit used up. *)
Possible(c) ==
  IF c.alg = "dp5" THEN IF c.n <= c.limit THEN {c.n} ELSE {c.limit}
  ELSE IF c.n < c.limit THEN {c.n} ELSE {c.limit - 1, c.limit}
Reached(c) == FEq(c.t, FMul(FInt(c.n), c.h))

Case(c) ==
  Flag((c.ret = "Success") <=> Reached(c), "C03", "Success is not reported at the end, or elsewhere")
  \cup Flag(c.ret \in {"Success", "MaxIters"}, "C03", "code of a run of many steps")
  \cup Flag(c.st[3] \in Possible(c), "C03", "the step limit is not the given one")
  \cup Flag(c.st[1] <= c.limit /\ c.st[1] >= c.st[3], "C03", "more steps than the limit allows")
  \cup Flag(c.st[3] + 1 = c.points, "C11", "accepted steps of a long run")
  \cup Flag(c.st[4] = 0, "C11", "rejected steps of a long run")
  \cup Flag(c.alg = "dp5" => c.st[1] = c.st[3], "C11", "steps of a long run")
  \cup Flag((c.alg = "dp5" \/ c.user) => c.st[2] = c.evals, "C11", "function evaluations of a long run")
  \cup Flag(FEq(c.t, FMul(FInt(c.st[3]), c.h)), "C08", "step size of a long run is not the largest allowed")

Init == /\ s \in 1..Len(Log)
        /\ i = 0
        /\ bad = IF Log[s].end = "ok" THEN {} ELSE {<<"C03", "no answer">>}
Next == /\ i < Len(Cases(Log[s]))
        /\ i' = i + 1
        /\ bad' = Case(Log[s].cases[i + 1])
        /\ UNCHANGED s
Good == \A b \in bad : b[1] # Prop
=============================================================================
