-------------------------------- MODULE MCLU --------------------------------
(* Elimination with partial pivoting as a machine, for all small matrices of *)
(* a shape.                                                                  *)
EXTENDS LU, TLC
CONSTANTS N, LB, UB,  \* size and bandwidths
          Re, Im,     \* largest parts of the entries
          Fault       \* "none", or how the elimination is spoilt
VARIABLES A, b, M, k, ju, prev, ier, done, sol

Entries == {<<x, y>> : x \in -Re..Re, y \in -Im..Im}
vars == <<A, b, M, k, ju, prev, ier, done, sol>>

RowSet(i) == {[j \in 1..N |-> IF InBand(i, j, LB, UB) THEN f[j] ELSE Z0] : f \in [1..N -> Entries]}

RECURSIVE Mats(_)
Mats(i) == IF i = 0 THEN {<< >>} ELSE {Append(m, r) : m \in Mats(i - 1), r \in RowSet(i)}

Init ==
  /\ A \in Mats(N)
  /\ b = [i \in 1..N |-> <<IF i % 2 = 0 THEN -i ELSE i, IF Im = 0 THEN 0 ELSE i - 2>>]
  /\ M = Augment(A, b, N)
  /\ k = 1 /\ ju = 0 /\ prev = Z1 /\ ier = 0 /\ done = FALSE
  /\ sol = << >>

(* Any nonzero entry would do in exact arithmetic. *)
Pivot ==
  LET may == {r \in {k} \cup Rows(k, N, LB) : M[r][k] # Z0} IN
  IF Fault = "lazy" /\ may # {} THEN CHOOSE r \in may : \A q \in may : r <= q
  ELSE IF Fault = "stay" THEN k
  ELSE PivotRow(M, k, N, LB, prev)
Stage ==
  /\ ~done /\ k <= N
  /\ LET p == Pivot
         S == SwapRows(M, k, p)
         j2 == Reach(ju, IF Fault = "reach" THEN k ELSE p, UB, N)
     IN IF S[k][k] = Z0
        THEN ier' = k /\ done' = TRUE /\ UNCHANGED <<M, k, ju, prev>>
        ELSE /\ M' = Eliminate(S, k, N, LB, j2, prev)
             /\ ju' = j2 /\ prev' = S[k][k] /\ k' = k + 1
             /\ UNCHANGED <<ier, done>>
  /\ UNCHANGED <<A, b, sol>>

(* Back substitution for the solution times the determinant, row by row. *)
RECURSIVE Sum(_, _, _)
Sum(i, D, j) == IF j <= i THEN Z0 ELSE ZAdd(ZMul(M[i][j], D[j]), Sum(i, D, j - 1))
RECURSIVE Back(_, _)
Back(i, D) ==
  IF i = 0 THEN D
  ELSE Back(i - 1, [D EXCEPT ![i] = ZDiv(ZSub(ZMul(M[i][N + 1], M[N][N]), Sum(i, D, N)), M[i][i])])
Substitute ==
  /\ ~done /\ k = N + 1
  /\ sol' = Back(N, [i \in 1..N |-> Z0])
  /\ done' = TRUE
  /\ UNCHANGED <<A, b, M, k, ju, prev, ier>>

Next == Stage \/ Substitute
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE RowSum(_, _, _)
RowSum(i, D, j) == IF j = 0 THEN Z0 ELSE ZAdd(ZMul(A[i][j], D[j]), RowSum(i, D, j - 1))
Index == done => ier = SingularAt(A, N)
Operator == done => ier = Factor(Augment(A, b, N), 1, N, LB, UB, 0, Z1, TRUE)[1]
Solves == (done /\ ier = 0) => \A i \in 1..N : RowSum(i, sol, N) = ZMul(M[N][N], b[i])
Cramer == (done /\ ier = 0) =>
  LET d == Det(A, Upto(N), Upto(N)) IN
    \A i \in 1..N : ZMul(sol[i], d) = ZMul(Numer(A, b, N, i), M[N][N])
(* Real matrices: multipliers at most one in magnitude. *)
Multipliers == [][(k' = k + 1 /\ Im = 0) =>
  \A i \in Rows(k, N, LB) : Abs(SwapRows(M, k, Pivot)[i][k][1]) <= Abs(prev'[1])]_vars
(* Fill-in never leaves the extended band, so nothing is lost by looking only
   at the columns up to ju. *)
FillIn == \A i, j \in 1..N : (j > i + LB + UB /\ i < k) => M[i][j] = Z0
Below == \A i, j \in 1..N : (j < k /\ i > j) => M[i][j] = Z0
Untouched == \A i, j \in 1..N : (i >= k /\ ~InBand(i, j, LB + N, UB) /\ j > ju) => M[i][j] = Z0
Ends == <>done
(* Not so: there are interchanges and singular columns at every stage. *)
NeverSwaps == ~done /\ k <= N => PivotRow(M, k, N, LB, prev) = k
NeverSecond == ier # 2
NeverLast == ier # N
=============================================================================
