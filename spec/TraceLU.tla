------------------------------- MODULE TraceLU -------------------------------
(***************************************************************************)
(* Validates results of the factorization and solution routines against    *)
(* LU.tla, of the same routines on matrices of doubles by their residual,  *)
(* and of the reduction to Hessenberg form. A record holds many cases.     *)
(***************************************************************************)
EXTENDS F64, LU, TLC, Json

CONSTANTS TraceFile, Prop
VARIABLES s, i, bad

Log == ndJsonDeserialize(TraceFile)
PropOf(kind) == IF kind \in {"dec", "decc"} THEN "C15" ELSE "C16"
Flag(kind, cond, why) == IF cond THEN {} ELSE {<<PropOf(kind), why>>}
L(x) == FLit(x)

Cases(S) == IF "cases" \in DOMAIN S THEN S.cases ELSE << >>

(* ---- integers: exact ---- *)
(* Re and im of p / q *)
Quot(p, q) == LET z == ZMul(p, ZConj(q)) d == ZAbs2(q) IN <<FRat(z[1], d), FRat(z[2], d)>>
SolOk(c, d) ==
  \A r \in 1..c.n :
    LET x == Quot(Numer(c.a, c.b, c.n, r), d)
        tol == FMul(L("1e-10"), FAdd(L("1"), FMax(VMaxAbs(c.xr), VMaxAbs(c.xi))))
    IN FNear(VGet(c.xr, r), x[1], tol, L("0")) /\ FNear(VGet(c.xi, r), x[2], tol, L("0"))
IntBad(k, c) ==
  LET F == Factor(Augment(c.a, c.b, c.n), 1, c.n, c.lb, c.ub, 0, Z1, TRUE)
      at == F[1]
  IN
  IF at = 0
  THEN Flag(k, c.ier = 0, "a regular matrix is reported as singular")
       \cup (IF c.ier = 0 THEN Flag(k, SolOk(c, Det(c.a, Upto(c.n), Upto(c.n))), "wrong solution") ELSE {})
  ELSE IF F[2] THEN Flag(k, c.ier = at, "wrong index of the singular column")
  ELSE Flag(k, c.ier = 0 \/ c.ier >= at, "wrong index of the singular column")

(* ---- doubles: residual ---- *)
ColZero(c, j) == \A r \in 1..c.n : FEq(VGet(c.ar, (r - 1) * c.n + j), L("0")) /\ FEq(VGet(c.ai, (r - 1) * c.n + j), L("0"))
FirstZero(c) == IF \E j \in 1..c.n : ColZero(c, j)
                THEN CHOOSE j \in 1..c.n : ColZero(c, j) /\ \A q \in 1..(j - 1) : ~ColZero(c, q) ELSE 0
Residual(c) ==
  LET big == FAdd(FMul(FInt(c.n), FMul(FMax(VMaxAbs(c.ar), VMaxAbs(c.ai)), FMax(VMaxAbs(c.xr), VMaxAbs(c.xi)))),
                  FMax(VMaxAbs(c.br), VMaxAbs(c.bi)))
      rr == VSub(VSub(MVec(c.ar, c.xr), MVec(c.ai, c.xi)), c.br)
      ri == VSub(VAdd(MVec(c.ar, c.xi), MVec(c.ai, c.xr)), c.bi)
  IN VIsFin(c.xr) /\ VIsFin(c.xi) /\ FLe(FMax(VMaxAbs(rr), VMaxAbs(ri)), FMul(L("1e-11"), big))
FloatBad(k, c) ==
  LET z == FirstZero(c) IN
  Flag(k, c.ier = z, IF z = 0 THEN "a regular matrix is reported as singular" ELSE "wrong index of the singular column")
  \cup (IF z = 0 /\ c.ier = 0 THEN Flag(k, Residual(c), "wrong solution") ELSE {})

(* ---- Hessenberg form ---- *)
At(v, n, r, j) == VGet(v, (r - 1) * n + j)
Mat(n, e(_, _)) == VMk([q \in 1..(n * n) |-> e(((q - 1) \div n) + 1, ((q - 1) % n) + 1)])
One(b) == IF b THEN L("1") ELSE L("0")
Ident(n) == LET e(r, j) == One(r = j) IN Mat(n, e)
Swap(n, a, b) == LET e(r, j) == One(r = (IF j = a THEN b ELSE IF j = b THEN a ELSE j)) IN Mat(n, e)
(* The multipliers of stage m *)
Mult(c, m) ==
  LET e(r, j) == IF r = j THEN L("1") ELSE IF j = m /\ r > m /\ r <= c.igh THEN At(c.h, c.n, r, m - 1) ELSE L("0")
  IN Mat(c.n, e)
(* Stages m = low+2 .. igh-1, counting from one. *)
RECURSIVE Trans(_, _)
Trans(c, m) ==
  IF m < c.low + 2 THEN Ident(c.n)
  ELSE MMul(MMul(Trans(c, m - 1), Swap(c.n, m, c.p[m] + 1)), Mult(c, m))
Stored(c, r, j) == j > c.low /\ r <= c.igh /\ r > j + 1
Hess(c) == VMk([q \in 1..(c.n * c.n) |->
  LET r == ((q - 1) \div c.n) + 1 j == ((q - 1) % c.n) + 1 IN
  IF Stored(c, r, j) THEN L("0") ELSE VGet(c.h, q)])
HessBad(c) ==
  LET ok == \A m \in (c.low + 2)..(c.igh - 1) : c.p[m] + 1 \in m..c.igh
      T == Trans(c, c.igh - 1)
      H == Hess(c)
      tol == FMul(L("1e-10"), FMul(FInt(c.n), FMul(VMaxAbs(T), FAdd(VMaxAbs(c.a), VMaxAbs(H)))))
  IN
  Flag("elmhes", ok, "interchange outside the block")
  \cup Flag("elmhes", \A r, j \in 1..c.n : Stored(c, r, j) => FLe(FAbs(At(c.h, c.n, r, j)), L("1.0000000001")),
            "multiplier larger than one")
  \cup (IF ok THEN Flag("elmhes", VIsFin(H) /\ FLe(VMaxAbs(VSub(MMul(c.a, T), MMul(T, H))), tol), "not a similarity transformation")
        ELSE {})

CaseBad(k, c) ==
  IF c.ier = -1 THEN {<<PropOf(k), "panic">>}
  ELSE IF k = "elmhes" THEN HessBad(c)
  ELSE IF "b" \in DOMAIN c THEN IntBad(k, c)
  ELSE FloatBad(k, c)

Init == /\ s \in 1..Len(Log)
        /\ i = 0
        /\ bad = IF Log[s].end = "hang" THEN {<<PropOf(Log[s].kind), "no answer">>} ELSE {}
Next == /\ i < Len(Cases(Log[s]))
        /\ i' = i + 1
        /\ bad' = CaseBad(Log[s].kind, Log[s].cases[i + 1])
        /\ UNCHANGED s
Good == \A b \in bad : b[1] # Prop
=============================================================================
