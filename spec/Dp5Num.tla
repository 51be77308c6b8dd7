------------------------------- MODULE Dp5Num -------------------------------
(* The Dormand-Prince 5(4) formulas and step-size controller in doubles. *)
EXTENDS F64, Integers, Sequences

Q(p, q) == FRat(p, q)

(* Nodes and rows of the tableau; row i uses the derivatives of stages 1..i. *)
Node == <<Q(1, 5), Q(3, 10), Q(4, 5), Q(8, 9), FInt(1), FInt(1)>>
Row == <<
  <<Q(1, 5)>>,
  <<Q(3, 40), Q(9, 40)>>,
  <<Q(44, 45), Q(-56, 15), Q(32, 9)>>,
  <<Q(19372, 6561), Q(-25360, 2187), Q(64448, 6561), Q(-212, 729)>>,
  <<Q(9017, 3168), Q(-355, 33), Q(46732, 5247), Q(49, 176), Q(-5103, 18656)>>,
  <<Q(35, 384), FInt(0), Q(500, 1113), Q(125, 192), Q(-2187, 6784), Q(11, 84)>> >>
(* Difference of the fifth- and fourth-order weights. *)
Diff == <<Q(71, 57600), FInt(0), Q(-71, 16695), Q(71, 1920), Q(-17253, 339200),
          Q(22, 525), Q(-1, 40)>>
(* Weights of the fourth-degree dense-output correction. *)
Big(p, q) == FDiv(FLit(p), FLit(q))
DenseW == <<Big("-12715105075", "11282082432"), FInt(0), Big("87487479700", "32700410799"),
            Big("-10690763975", "1880347072"), Big("701980252875", "199316789632"),
            Big("-1453857185", "822651844"), Big("69997945", "29380423")>>

(* Stage value i (1..6) from the derivatives ks, and its rounding scale. *)
StageU(u, h, ks, i)   == VAxpy(u, h, Row[i], SubSeq(ks, 1, i))
StageTol(u, h, ks, i) == VAxpyTol(u, h, Row[i], SubSeq(ks, 1, i))

(* Scaled error estimate of an attempt from u to un, and its rounding scale. *)
Weights(u, un, o) == VScal(o.abstol, o.reltol, VMaxV(VAbs(u), VAbs(un)))
ErrOf(u, un, h, ks, o) ==
  VMean2(VScale(h, VLin(Diff, ks)), Weights(u, un, o))
ErrTol(u, un, h, ks, o) ==
  FMul(FLit("1e-13"), VMean2(VAxpyTol(VZero(VDim(u)), h, Diff, ks), Weights(u, un, o)))

(* Controller. fo: previous accepted error (at least 1e-4). *)
Expo(o) == FSub(FLit("0.2"), FMul(o.beta, FLit("0.75")))
Fac11(err, o) == FPow(err, Expo(o))
AcceptRatio(err, fo, o) ==   \* dt / dtnew
  FMax(FDiv(FInt(1), o.facr),
       FMin(FDiv(FInt(1), o.facl),
            FDiv(FDiv(Fac11(err, o), FPow(fo, o.beta)), o.safe)))
RejectRatio(err, o) ==
  FMin(FDiv(FInt(1), o.facl), FDiv(Fac11(err, o), o.safe))

(* Dense output at fraction s of the step. *)
DenseAt(u, un, h, ks, s) ==
  LET s1 == FSub(FInt(1), s)
      r2 == VSub(un, u)
      r3 == VSub(VScale(h, ks[1]), r2)
      r4 == VSub(VSub(r2, VScale(h, ks[7])), r3)
      r5 == VScale(h, VLin(DenseW, ks))
  IN VAdd(u, VScale(s, VAdd(r2, VScale(s1, VAdd(r3, VScale(s, VAdd(r4, VScale(s1, r5))))))))
DenseTol(u, h, ks) == VAxpyTol(VScale(FInt(3), u), h, DenseW, ks)
=============================================================================
