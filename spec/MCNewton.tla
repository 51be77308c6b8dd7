------------------------------ MODULE MCNewton ------------------------------
(* All Newton iterations whose increments are powers of two (and NaN), over
   several attempts in a row. *)
EXTENDS Integers, Sequences, TLC, F64

CONSTANTS Max,      \* largest numbers of iterations
          Sizes,    \* the increments are 2^-s for s in Sizes
          Tol,      \* the tolerance is 2^-Tol
          Attempts,
          Eager     \* TRUE breaks the model: increments below four tolerances suffice

VARIABLES mx, d, why, fac, dt, n

vars == <<mx, d, why, fac, dt, n>>

N == INSTANCE Newton

P2(k) == FPow(FInt(2), FInt(-k))
NaN == FSqrt(FInt(-1))
fnewt == P2(Tol)
Nums == {P2(k) : k \in Sizes} \cup {NaN}

Init ==
  /\ mx \in Max
  /\ d = << >> /\ why = "go" /\ fac = N!Damp(FInt(1)) /\ dt = FInt(1) /\ n = 1

Iterate ==
  /\ why = "go"
  /\ \E x \in Nums :
       LET e == Append(d, x)
           w == N!Decide(e, Len(e), mx, fac, fnewt)
       IN /\ d' = e
          /\ why' = IF Eager /\ FLe(x, FMul(FInt(4), fnewt)) THEN "conv" ELSE w
          /\ dt' = IF why' \in {"half", "slow"} THEN FMul(dt, N!Shrink(e, Len(e), mx, why', fnewt)) ELSE dt
  /\ UNCHANGED <<mx, fac, n>>

Again ==
  /\ why # "go" /\ n < Attempts
  /\ d' = << >> /\ why' = "go" /\ n' = n + 1
  /\ fac' = N!Damp(N!Factor(d, Len(d), mx, fac))
  /\ UNCHANGED <<mx, dt>>

Next == Iterate \/ Again
Spec == Init /\ [][Next]_vars

k == Len(d)
(* C23 *)
Limited == k <= mx /\ (k = mx => why # "go")
(* Converged: what a geometric series of the observed rate would still add is
   below the tolerance. *)
Sound == why = "conv" /\ k < mx /\ k > 1 =>
           FLe(FMul(FDiv(N!Rate(d, k), FSub(FInt(1), N!Rate(d, k))), d[k]), FMul(fnewt, FLit("1.0000001")))
NaNFails == why = "conv" => ~FIsNaN(d[k])
(* An iteration that contracts at a constant rate which suffices is not given up. *)
Contracts(r) == k > 1 /\ \A q \in 2..k : d[q] = FMul(r, d[q - 1])
Patient == \A s \in 1..4 :
             Contracts(P2(s)) /\ FLt(FMul(FMul(N!FactorOf(P2(s)), d[1]), FPow(P2(s), FInt(mx - 2))), fnewt)
             => why \in {"go", "conv"}
(* One that does not contract does not converge (but for the last iteration,
   which is judged by the rate before). *)
Strict == why = "conv" /\ k > 1 /\ k < mx => FLt(N!Rate(d, k), FLit("0.99"))
(* The last of three or more iterations is never needed: after the one before,
   what is predicted is what is left. *)
LastUnused == mx >= 3 => k < mx
(* Every failure shrinks the step size, not below a third. *)
Shrinks == [][why' \in {"half", "slow"} /\ why = "go" => FLt(dt', dt) /\ FLe(FMul(dt, FLit("0.29")), dt') /\ FLe(dt', FMul(dt, FLit("0.8")))]_vars
(* The factor carried over stays positive and is at most 99 damped. *)
FactorKept == FLt(FInt(0), fac) /\ FLe(fac, FPow(FInt(99), FLit("0.8")))
(* Claims that must fail *)
NeverSlow == why # "slow"
NeverHalf == why # "half"
NeverOnce == ~(why = "conv" /\ k = 1 /\ n > 1)
NeverLast == ~(why = "conv" /\ k = mx)
=============================================================================
