------------------------------- MODULE TraceFd -------------------------------
(***************************************************************************)
(* Validates finite-difference derivatives of                              *)
(*   f_j(u, t) = c_j + sum_k (a_jk + b_jk u_k) u_k + q_j u_1 u_n           *)
(*               + d_j t + e_j t^2                                         *)
(* whose derivatives are known. A record holds many cases.                 *)
(***************************************************************************)
EXTENDS F64, TLC, Json, FiniteSets

CONSTANTS TraceFile, Prop
VARIABLES s, i, bad

Log == ndJsonDeserialize(TraceFile)
Flag(cond, why) == IF cond THEN {} ELSE {<<"C17", why>>}
Cases(S) == IF "cases" \in DOMAIN S THEN S.cases ELSE << >>
L(x) == FLit(x)
Eps == L("2.220446049250313e-16")
Add3(x, y, z) == FAdd(x, FAdd(y, z))
Mul3(x, y, z) == FMul(x, FMul(y, z))

U(c, k) == VGet(c.u, k)
M(c, v, j, k) == VGet(v, (j - 1) * c.n + k)

RECURSIVE Sum(_, _, _)
(* sum of the magnitudes of the terms of f_j *)
Sum(c, j, k) ==
  IF k = 0 THEN Add3(FAbs(VGet(c.c, j)), FAbs(Mul3(VGet(c.q, j), U(c, 1), U(c, c.n))),
                     FAdd(FAbs(FMul(VGet(c.d, j), c.t)), FAbs(Mul3(VGet(c.e, j), c.t, c.t))))
  ELSE Add3(FAbs(FMul(M(c, c.a, j, k), U(c, k))), FAbs(Mul3(M(c, c.b, j, k), U(c, k), U(c, k))), Sum(c, j, k - 1))

(* d f_j / d u_k and half its second derivative *)
Cross(c, j, k) ==
  FAdd(IF k = 1 THEN FMul(VGet(c.q, j), U(c, c.n)) ELSE L("0"),
       IF k = c.n THEN FMul(VGet(c.q, j), U(c, 1)) ELSE L("0"))
DU(c, j, k) == Add3(M(c, c.a, j, k), Mul3(L("2"), M(c, c.b, j, k), U(c, k)), Cross(c, j, k))
Curv(c, j, k) == FAdd(FAbs(M(c, c.b, j, k)), IF c.n = 1 THEN FAbs(VGet(c.q, j)) ELSE L("0"))
DT(c, j) == FAdd(VGet(c.d, j), Mul3(L("2"), VGet(c.e, j), c.t))

(* Accuracy of a one-sided difference with increment sqrt(eps max(|x|, 1e-5)) *)
Del(x) == FSqrt(FMul(Eps, FMax(FAbs(x), L("1e-5"))))
Tol(x, size, curv, d) ==
  FMul(L("8"), FAdd(FMul(Eps, FAbs(d)), Add3(FDiv(FMul(Eps, size), Del(x)), FMul(curv, Del(x)), FMul(FAbs(d), FDiv(FMul(Eps, FAbs(x)), Del(x))))))

FdU(c) ==
  Flag(\A q \in 1..Len(c.calls) : c.calls[q].t = c.t, "evaluation at another time")
  \cup Flag(\A q \in 1..Len(c.calls) : Cardinality({k \in 1..c.n : VGet(c.calls[q].u, k) # U(c, k)}) <= 1,
            "more than one component perturbed")
  \cup Flag(\A j, k \in 1..c.n :
              LET d == DU(c, j, k)
              IN FLe(FAbs(FSub(M(c, c.df, j, k), d)), Tol(U(c, k), Sum(c, j, c.n), Curv(c, j, k), d)),
            "inaccurate derivative with respect to the state")
FdT(c) ==
  Flag(\A q \in 1..Len(c.calls) : VEq(c.calls[q].u, c.u), "state perturbed")
  \cup Flag(\A j \in 1..c.n :
              LET d == DT(c, j)
              IN FLe(FAbs(FSub(VGet(c.df, j), d)), Tol(c.t, Sum(c, j, c.n), FAbs(VGet(c.e, j)), d)),
            "inaccurate derivative with respect to time")
CaseBad(c) ==
  IF c.ier = -1 THEN {<<"C17", "panic">>}
  ELSE Flag(VEq(c.x, c.u), "state changed")
       \cup (IF c.user
             THEN Flag(VEq(c.df, c.given), "not the derivative given by the user")
                  \cup Flag(Len(c.own) = 1 /\ c.own[1].t = c.t /\ VEq(c.own[1].u, c.u), "user's derivative evaluated elsewhere")
                  \cup Flag(c.calls = << >>, "right-hand side evaluated although a derivative is given")
             ELSE IF c.time THEN FdT(c) ELSE FdU(c))

Init == /\ s \in 1..Len(Log)
        /\ i = 0
        /\ bad = IF Log[s].end = "hang" THEN {<<"C17", "no answer">>} ELSE {}
Next == /\ i < Len(Cases(Log[s]))
        /\ i' = i + 1
        /\ bad' = CaseBad(Log[s].cases[i + 1])
        /\ UNCHANGED s
Good == \A b \in bad : b[1] # Prop
=============================================================================
