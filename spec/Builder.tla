------------------------------ MODULE Builder ------------------------------
(* Building an integrator: options start from the algorithm's defaults and   *)
(* each setter replaces exactly the option of its name.                      *)
EXTENDS Integers, Sequences, FiniteSets

Names == {"reltol", "abstol", "dense", "dtstart", "dtmax", "max_steps", "max_newt_iter", "max_stiff",
          "modern_pred", "safe", "facr", "facl", "quot1", "quot2", "beta", "fnewt", "use_ext_col", "hess"}

Set(opts, name, val) == [opts EXCEPT ![name] = val]

(* sets is a sequence of <<name, value>>. *)
RECURSIVE Applied(_, _)
Applied(opts, sets) ==
  IF sets = << >> THEN opts ELSE Applied(Set(opts, Head(sets)[1], Head(sets)[2]), Tail(sets))

(* The same, said without order of evaluation: the last value given counts,
   the default if there is none. *)
Given(sets, name) == {q \in 1..Len(sets) : sets[q][1] = name}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Declared(opts, sets) ==
  [name \in DOMAIN opts |-> IF Given(sets, name) = {} THEN opts[name] ELSE sets[MaxOf(Given(sets, name))][2]]
=============================================================================
