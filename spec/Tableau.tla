------------------------------ MODULE Tableau ------------------------------
(***************************************************************************)
(* Order conditions of the formulas in Dp5Num and RadauNum. A rooted tree  *)
(* is the sequence of the subtrees at its root. A method with weights b    *)
(* and matrix a has order p iff for all trees t of at most p nodes         *)
(*   sum of b[i] * Weight(t)[i]  =  1 / Density(t).                        *)
(* The states of this module are the trees.                                *)
(***************************************************************************)
EXTENDS F64, Integers, Sequences, TLC

CONSTANT MaxNodes
VARIABLES tree, nodes

DN == INSTANCE Dp5Num
RN == INSTANCE RadauNum

Zero == FInt(0)
One == FInt(1)

RECURSIVE Forest(_)
(* Sequences of trees with k nodes together; a tree of k nodes is a forest
   of k - 1. *)
Forest(k) ==
  IF k = 0 THEN {<< >>}
  ELSE UNION {{<<t>> \o f : t \in Forest(j - 1), f \in Forest(k - j)} : j \in 1..k}

RECURSIVE Size(_), Density(_)
Size(t) == IF t = << >> THEN 1 ELSE Size(Head(t)) + Size(Tail(t))
Density(t) ==
  IF t = << >> THEN 1
  ELSE LET f[q \in 0..Len(t)] == IF q = 0 THEN 1 ELSE f[q - 1] * Density(t[q])
       IN Size(t) * f[Len(t)]

RECURSIVE Weight(_, _, _)
(* Elementary weights of the stages; a: rows as vectors of length m. *)
Weight(t, a, m) ==
  IF t = << >> THEN VMk([i \in 1..m |-> One])
  ELSE LET w == Weight(Head(t), a, m)
           v == Weight(Tail(t), a, m)
       IN VMk([i \in 1..m |-> FMul(VDot(a[i], w), VGet(v, i))])

Meets(b, a, m, right) ==
  FNear(VDot(b, Weight(tree, a, m)), right, FLit("2e-14"), FLit("2e-14"))
Right == FDiv(One, FInt(Density(tree)))

-----------------------------------------------------------------------------
(* Dormand-Prince: seven stages, the first at the start, the last at the end. *)
Pad(r) == VMk([i \in 1..7 |-> IF i <= Len(r) THEN r[i] ELSE Zero])
A5 == TLCEval([i \in 1..7 |-> IF i = 1 THEN VZero(7) ELSE Pad(DN!Row[i - 1])])
B5 == A5[7]
B4 == VSub(B5, Pad(DN!Diff))
Unit(i) == VMk([j \in 1..7 |-> IF i = j THEN One ELSE Zero])
Units == TLCEval([i \in 1..7 |-> Unit(i)])
(* Weights of the stages in the interpolant at fraction x. *)
BDense(x) == DN!DenseAt(VZero(7), B5, One, Units, x)
Fractions == {FLit("0"), FLit("0.125"), FLit("0.3"), FLit("0.5"), FLit("0.77"), FLit("1")}
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN One ELSE FMul(x, Power(x, k - 1))

Order5 == nodes <= 5 => Meets(B5, A5, 7, Right)
Order4 == nodes <= 4 => Meets(B4, A5, 7, Right)
DenseOrder4 == nodes <= 4 => \A x \in Fractions : Meets(BDense(x), A5, 7, FMul(Power(x, nodes), Right))
RowSums == \A i \in 2..7 : FNear(VDot(A5[i], Weight(<< >>, A5, 7)), DN!Node[i - 1], FLit("1e-14"), Zero)

-----------------------------------------------------------------------------
(* Radau IIA. *)
AR == TLCEval([i \in 1..3 |-> VMk(RN!A[i])])
BR == AR[3]
CR == <<RN!C1, RN!C2, One>>
RadauOrder5 == nodes <= 5 => Meets(BR, AR, 3, Right)
(* Powers up to the third are integrated exactly by each stage ... *)
Pow3(k) == VMk([i \in 1..3 |-> Power(CR[i], k)])
Collocation == \A i \in 1..3, k \in 1..3 :
  FNear(VDot(AR[i], Pow3(k - 1)), FDiv(Power(CR[i], k), FInt(k)), FLit("1e-14"), Zero)
(* ... reproduced by the interpolant ... *)
Interpolant == \A k \in 1..3, x \in Fractions :
  FNear(VGet(RN!CollocationAt(Pow3(k), x), 1), Power(x, k), FLit("1e-14"), Zero)
(* ... and not seen by the error estimate. *)
Estimate == \A k \in 1..3 :
  FNear(VGet(RN!HeeLin(One, Pow3(k)), 1), IF k = 1 THEN FInt(-1) ELSE Zero, FLit("1e-13"), Zero)
(* One step for u' = z u from u = 1; z < 0. *)
Stab(z) ==
  LET f == VMk(<<z>>)
      d == RN!NewtonStep(One, f, VZero(3), f, f, f)
  IN FAdd(One, VGet(d, 3))
Stable == \A z \in {FLit("-1e-3"), FLit("-0.1"), FLit("-1"), FLit("-3"), FLit("-10"), FLit("-100"), FLit("-1e4"), FLit("-1e8")} :
  /\ FLe(FAbs(Stab(z)), One)
  /\ FLt(z, FLit("-1e3")) => FLe(FAbs(Stab(z)), FLit("1e-2"))
  /\ FLt(FLit("-0.11"), z) => FNear(Stab(z), FExp(z), FLit("1e-9"), Zero)
(* Gamma is the real eigenvalue of the inverse of A: A - (1/Gamma) I is singular. *)
Det3(x) ==
  LET e(i, j) == FSub(VGet(AR[i], j), IF i = j THEN x ELSE Zero)
      m(i, j, k, l) == FSub(FMul(e(i, k), e(j, l)), FMul(e(i, l), e(j, k)))
  IN FAdd(FSub(FMul(e(1, 1), m(2, 3, 2, 3)), FMul(e(1, 2), m(2, 3, 1, 3))), FMul(e(1, 3), m(2, 3, 1, 2)))
Eigenvalue == FLe(FAbs(Det3(FDiv(One, RN!Gamma))), FLit("1e-16"))

-----------------------------------------------------------------------------
Init == \E k \in 1..MaxNodes : nodes = k /\ tree \in Forest(k - 1)
Next == UNCHANGED <<tree, nodes>>
Spec == Init /\ [][Next]_<<tree, nodes>>

(* Not met: the orders are no higher. *)
Order6 == Meets(B5, A5, 7, Right)
RadauOrder6 == Meets(BR, AR, 3, Right)
Order4is5 == nodes <= 5 => Meets(B4, A5, 7, Right)
DenseOrder5 == nodes <= 5 => \A x \in Fractions : Meets(BDense(x), A5, 7, FMul(Power(x, nodes), Right))
=============================================================================
