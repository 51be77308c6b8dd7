-------------------------------- MODULE LU --------------------------------
(***************************************************************************)
(* Factorization of square matrices by elimination with partial pivoting,  *)
(* for dense, Hessenberg-like and banded matrices, in exact arithmetic.    *)
(* Entries are Gaussian integers <<re, im>>, a matrix is a sequence of     *)
(* rows. Real matrices have zero imaginary parts.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* ---- Gaussian integers ---- *)
Z0 == <<0, 0>>
Z1 == <<1, 0>>
ZAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
ZSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
ZMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
ZConj(a) == <<a[1], -a[2]>>
ZAbs2(a) == a[1] * a[1] + a[2] * a[2]
Abs(x) == IF x < 0 THEN -x ELSE x
ZSize(a) == Abs(a[1]) + Abs(a[2])
(* Exact integer quotient, for either sign of a. *)
IDiv(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
ZDiv(a, b) == LET q == ZMul(a, ZConj(b)) d == ZAbs2(b) IN <<IDiv(q[1], d), IDiv(q[2], d)>>
ZDivides(b, a) == LET q == ZMul(a, ZConj(b)) d == ZAbs2(b) IN Abs(q[1]) % d = 0 /\ Abs(q[2]) % d = 0

(* ---- what singularity and solution mean ---- *)
(* Determinant of the rows rs (a sequence) and the columns cs. *)
RECURSIVE Det(_, _, _)
Without(q, p) == [x \in 1..(Len(q) - 1) |-> IF x < p THEN q[x] ELSE q[x + 1]]
RECURSIVE DetSum(_, _, _, _)
DetSum(A, rs, cs, p) ==
  IF p = 0 THEN Z0
  ELSE LET e == A[rs[1]][cs[p]]
           t == IF e = Z0 THEN Z0 ELSE ZMul(e, Det(A, Tail(rs), Without(cs, p)))
       IN ZAdd(DetSum(A, rs, cs, p - 1), IF p % 2 = 1 THEN t ELSE ZSub(Z0, t))
Det(A, rs, cs) == IF rs = << >> THEN Z1 ELSE DetSum(A, rs, cs, Len(cs))

Upto(k) == [x \in 1..k |-> x]
(* Increasing sequences of k of the numbers 1..n *)
RECURSIVE Choices(_, _)
Choices(n, k) ==
  IF k = 0 THEN {<< >>}
  ELSE IF k > n THEN {}
  ELSE Choices(n - 1, k) \cup {Append(q, n) : q \in Choices(n - 1, k - 1)}
Independent(A, n, k) == \E rs \in Choices(n, k) : Det(A, rs, Upto(k)) # Z0
(* Zero for a regular matrix, else the first column that depends on those
   before it. *)
SingularAt(A, n) ==
  IF \A k \in 1..n : Independent(A, n, k) THEN 0
  ELSE CHOOSE k \in 1..n : ~Independent(A, n, k) /\ \A l \in 1..(k - 1) : Independent(A, n, l)

(* Cramer's rule: the solution is Numer / Det. *)
Numer(A, b, n, i) ==
  Det([r \in 1..n |-> [A[r] EXCEPT ![i] = b[r]]], Upto(n), Upto(n))

(* ---- shape ---- *)
InBand(i, j, lb, ub) == i - j <= lb /\ j - i <= ub
HasShape(A, n, lb, ub) == \A i, j \in 1..n : ~InBand(i, j, lb, ub) => A[i][j] = Z0

(* ---- elimination ---- *)
(* Fraction-free: after stage k the entries of the rows below are the true
   ones times M[k][k]. The right-hand side is column n+1. prev is the last
   pivot, ju the last column touched so far (banded matrices). *)
Rows(k, n, lb) == (k + 1)..(IF k + lb < n THEN k + lb ELSE n)

(* True entries are M[i][k] / prev: sizes compare after turning by prev. *)
TrueSize(M, i, k, prev) == ZSize(ZMul(M[i][k], ZConj(prev)))
PivotRow(M, k, n, lb, prev) ==
  CHOOSE i \in {k} \cup Rows(k, n, lb) :
    /\ \A r \in {k} \cup Rows(k, n, lb) : TrueSize(M, r, k, prev) <= TrueSize(M, i, k, prev)
    /\ \A r \in {k} \cup Rows(k, n, lb) : TrueSize(M, r, k, prev) = TrueSize(M, i, k, prev) => i <= r

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Reach(ju, p, ub, n) == Min2(n, Max2(ju, p + ub))

SwapRows(M, a, b) == [M EXCEPT ![a] = M[b], ![b] = M[a]]

(* Rows below the band keep their entries but must take part in the scaling
   of the fraction-free form; columns behind ju are zero in the rows that
   matter and are left alone. *)
Eliminate(M, k, n, lb, ju, prev) ==
  [i \in 1..n |->
    IF i <= k THEN M[i]
    ELSE [j \in 1..(n + 1) |->
      IF j < k THEN M[i][j]
      ELSE IF j = k THEN Z0
      ELSE IF i \in Rows(k, n, lb) /\ (j <= ju \/ j = n + 1)
           THEN ZDiv(ZSub(ZMul(M[k][k], M[i][j]), ZMul(M[i][k], M[k][j])), prev)
           ELSE ZDiv(ZMul(M[k][k], M[i][j]), prev)]]

(* All pivots have a modulus that is a power of two, so that doubles suffer
   no rounding. *)
RECURSIVE Pow2(_)
Pow2(x) == x = 1 \/ (x > 1 /\ x % 2 = 0 /\ Pow2(x \div 2))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Pow2Quot(p, q) == LET g == Gcd(p, q) IN Pow2(p \div g) /\ Pow2(q \div g)

(* The whole elimination as an operator: <<singular stage or 0, all pivots
   powers of two>>. *)
RECURSIVE Factor(_, _, _, _, _, _, _, _)
Factor(M, k, n, lb, ub, ju, prev, exact) ==
  LET p == PivotRow(M, k, n, lb, prev)
      S == SwapRows(M, k, p)
      j2 == Reach(ju, p, ub, n)
  IN
  IF S[k][k] = Z0 THEN <<k, exact>>
  ELSE LET ex == exact /\ Pow2Quot(ZAbs2(S[k][k]), ZAbs2(prev)) IN
       IF k = n THEN <<0, ex>>
       ELSE Factor(Eliminate(S, k, n, lb, j2, prev), k + 1, n, lb, ub, j2, S[k][k], ex)
Augment(A, b, n) == [i \in 1..n |-> Append(A[i], b[i])]
=============================================================================
