------------------------------ MODULE RadauNum ------------------------------
(* The three-stage Radau IIA method, simplified Newton iteration, error
   estimate and step-size controller in doubles. *)
EXTENDS F64, Integers, Sequences

S6 == FSqrt(FInt(6))
C1 == FDiv(FSub(FInt(4), S6), FInt(10))
C2 == FDiv(FAdd(FInt(4), S6), FInt(10))
Comb(a, b, d) == FDiv(FAdd(FInt(a), FMul(FInt(b), S6)), FInt(d)) \* (a + b sqrt 6) / d
A == << <<Comb(88, -7, 360), Comb(296, -169, 1800), Comb(-2, 3, 225)>>,
        <<Comb(296, 169, 1800), Comb(88, 7, 360), Comb(-2, -3, 225)>>,
        <<Comb(16, -1, 36), Comb(16, 1, 36), Comb(1, 0, 9)>> >>
(* Real eigenvalue of the inverse of A. *)
Gamma == FLit("3.637834252744496")
(* Transformation that makes the inverse of A block diagonal. *)
TI == << <<FLit("4.3255798900631553510"), FLit("0.33919925181580986954"), FLit("0.54177053993587487119")>>,
         <<FLit("-4.1787185915519047273"), FLit("-0.32768282076106238708"), FLit("0.47662355450055045196")>>,
         <<FLit("-0.50287263494578687595"), FLit("2.5719269498556054292"), FLit("-0.59603920482822492497")>> >>

Cat3(a, b, c) == VCat(a, VCat(b, c))
Third(z, i) == \* i-th third of a stacked vector
  LET n == VDim(z) \div 3 IN SubSeq(z, 2 * n * (i - 1) + 1, 2 * n * i)

(* One Newton step: new stacked stage increments from the derivatives f1..f3
   at the stages u + z1.., for step size h and Jacobian jac. *)
NewtonStep(h, jac, z, f1, f2, f3) ==
  MSolve(MRadau(h, jac),
         VSub(Cat3(f1, f2, f3),
              Cat3(MVec(jac, Third(z, 1)), MVec(jac, Third(z, 2)), MVec(jac, Third(z, 3)))))

(* Norm of an increment, measured in transformed variables. *)
IncNorm(d, scal) ==
  LET zs == <<Third(d, 1), Third(d, 2), Third(d, 3)>>
  IN VMean2(Cat3(VLin(TI[1], zs), VLin(TI[2], zs), VLin(TI[3], zs)),
            Cat3(scal, scal, scal))

(* Filtered error estimate. f0: derivative at the start (or refined). *)
HeeLin(h, z) ==
  LET q == FMul(FInt(3), h)
      e1 == FDiv(FNeg(FAdd(FInt(13), FMul(FInt(7), S6))), q)
      e2 == FDiv(FAdd(FInt(-13), FMul(FInt(7), S6)), q)
      e3 == FDiv(FInt(-1), q)
  IN VLin(<<e1, e2, e3>>, <<Third(z, 1), Third(z, 2), Third(z, 3)>>)
Filter(h, jac, z, f0) ==
  MSolve(MShift(FDiv(Gamma, h), jac), VAdd(HeeLin(h, z), f0))
EstNorm(v, scal) ==
  LET e == VMean2(v, scal) IN IF FLt(e, FLit("1e-10")) THEN FLit("1e-10") ELSE e

(* Controllers; k Newton iterations. All return dt / dtnew. *)
Clamp(x, o) == FMax(o.facr, FMin(o.facl, x))
SafeFac(k, o) ==
  FMin(o.safe, FDiv(FMul(o.safe, FInt(1 + 2 * o.max_newt_iter)), FInt(k + 2 * o.max_newt_iter)))
Classical(err, k, o) == Clamp(FDiv(FPow(err, FLit("0.25")), SafeFac(k, o)), o)
Predictive(err, k, h, dtacc, erracc, o) ==
  FMax(Classical(err, k, o),
       Clamp(FDiv(FMul(FDiv(dtacc, h), FPow(FDiv(FMul(err, err), erracc), FLit("0.25"))), o.safe), o))

(* Cubic through (0, 0), (C1, z1), (C2, z2), (1, z3) at fraction s. *)
Lag(s, x, a, b, c) ==
  FDiv(FMul(FMul(FSub(s, a), FSub(s, b)), FSub(s, c)),
       FMul(FMul(FSub(x, a), FSub(x, b)), FSub(x, c)))
Weights3(s) == <<Lag(s, C1, FInt(0), C2, FInt(1)), Lag(s, C2, FInt(0), C1, FInt(1)),
                 Lag(s, FInt(1), FInt(0), C1, C2)>>
CollocationAt(z, s) == VLin(Weights3(s), <<Third(z, 1), Third(z, 2), Third(z, 3)>>)
CollocationAmp(s) == LET w == Weights3(s) IN FAdd(FAbs(w[1]), FAdd(FAbs(w[2]), FAbs(w[3])))
=============================================================================
