------------------------------- MODULE Newton -------------------------------
(***************************************************************************)
(* When Radau5's Newton iteration stops. d is the sequence of norms of the *)
(* increments so far, mx the largest number of iterations, fac the         *)
(* convergence factor left by earlier iterations (already damped), fnewt   *)
(* the tolerance.                                                          *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences

LOCAL Least == FLit("2.220446049250313e-16")
Unit == FInt(1)

(* The rate of convergence is only judged between the first and the last
   possible iteration. *)
Judged(k, mx) == k > 1 /\ k < mx
Ratio(d, k) == FDiv(d[k], FMax(d[k - 1], Least))
Rate(d, k) == IF k = 2 THEN Ratio(d, 2) ELSE FSqrt(FMul(Ratio(d, k), Ratio(d, k - 1)))
Diverges(d, k) == ~FLt(Rate(d, k), FLit("0.99"))
FactorOf(th) == FDiv(th, FSub(Unit, th))

RECURSIVE Factor(_, _, _, _)
Factor(d, k, mx, fac) ==
  IF k < 1 THEN fac
  ELSE IF Judged(k, mx) /\ ~Diverges(d, k) THEN FactorOf(Rate(d, k))
  ELSE Factor(d, k - 1, mx, fac)

(* What would be left after all iterations, and what is left now, in units
   of the tolerance. *)
Predicted(d, k, mx, fnewt) ==
  LET th == Rate(d, k) IN
  FDiv(FMul(FMul(FactorOf(th), d[k]), FPow(th, FInt(mx - 1 - k))), fnewt)
Left(d, k, mx, fac, fnewt) == FDiv(FMul(Factor(d, k, mx, fac), d[k]), fnewt)

(* go on, conv(erged), half: give up and halve, slow: give up and shrink *)
Decide(d, k, mx, fac, fnewt) ==
  IF Judged(k, mx) /\ Diverges(d, k) THEN "half"
  ELSE IF Judged(k, mx) /\ FLe(Unit, Predicted(d, k, mx, fnewt)) THEN "slow"
  ELSE IF FLe(Left(d, k, mx, fac, fnewt), Unit) THEN "conv"
  ELSE IF k >= mx THEN "half"
  ELSE "go"

(* Factor of the step size after giving up. *)
Slower(p, k, mx) ==
  FMul(FLit("0.8"), FPow(FMax(FLit("1e-4"), FMin(FInt(20), p)), FDiv(FInt(-1), FInt(3 + mx - k))))
Shrink(d, k, mx, why, fnewt) ==
  IF why = "half" THEN FLit("0.5") ELSE Slower(Predicted(d, k, mx, fnewt), k, mx)

Damp(fac) == FPow(FMax(fac, Least), FLit("0.8"))
=============================================================================
