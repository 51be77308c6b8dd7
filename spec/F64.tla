-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 double precision numbers, vectors and small matrices.          *)
(*                                                                         *)
(* A number is a pair <<hi, lo>> of 32-bit integers, the two halves of its *)
(* bit pattern. A vector of n numbers is the flat tuple of its 2n halves,  *)
(* a matrix is a vector in row-major order.                                *)
(*                                                                         *)
(* TLC evaluates every operator below with the Java class F64Overrides;    *)
(* the definitions here only fix names and arities.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Undefined == CHOOSE x : x \notin {}

(* ---- numbers ---- *)
FLit(str)   == Undefined  \* from a decimal literal, e.g. FLit("1e-7")
FInt(i)     == Undefined  \* from an integer
FRat(p, q)  == Undefined  \* p / q, correctly rounded
FAdd(a, b)  == Undefined
FSub(a, b)  == Undefined
FMul(a, b)  == Undefined
FDiv(a, b)  == Undefined
FNeg(a)     == Undefined
FAbs(a)     == Undefined
FSqrt(a)    == Undefined
FPow(a, b)  == Undefined
FExp(a)     == Undefined
FSin(a)     == Undefined
FCos(a)     == Undefined
FMin(a, b)  == Undefined  \* a NaN operand is ignored
FMax(a, b)  == Undefined  \* a NaN operand is ignored
FUlp(a)     == Undefined
FLt(a, b)   == Undefined  \* FALSE if an operand is NaN
FLe(a, b)   == Undefined  \* FALSE if an operand is NaN
FEq(a, b)   == Undefined  \* numeric equality; FALSE if an operand is NaN
FIsNaN(a)   == Undefined
FIsFin(a)   == Undefined
FNear(a, b, at, rt) == Undefined \* |a-b| <= at + rt*max(|a|,|b|), or same NaN/inf
FStr(a)     == Undefined  \* decimal string, for messages

(* ---- vectors ---- *)
VDim(v)        == Undefined
VGet(v, i)     == Undefined  \* i \in 1..VDim(v)
VMk(seq)       == Undefined  \* from a sequence of numbers
VZero(n)       == Undefined
VAdd(v, w)     == Undefined
VSub(v, w)     == Undefined
VScale(a, v)   == Undefined
VAbs(v)        == Undefined
VMaxV(v, w)    == Undefined  \* componentwise maximum, a NaN operand is ignored
VLin(cs, vs)   == Undefined  \* sum of cs[i] * vs[i], without those with cs[i] = 0
VAxpy(u, h, cs, vs) == Undefined \* u + h * (sum of cs[i] * vs[i])
VAxpyTol(u, h, cs, vs) == Undefined \* |u| + |h| * (sum of |cs[i]| * |vs[i]|)
VEq(v, w)      == Undefined  \* same length, equal numbers; NaN equals NaN
VIsFin(v)      == Undefined
VNear(v, w, at, rt) == Undefined \* componentwise FNear
VNearV(v, w, tol)   == Undefined \* |v_i - w_i| <= tol_i, or same NaN/inf
VMaxAbs(v)     == Undefined
VMean2(v, s)   == Undefined  \* sqrt(mean of (v_i/s_i)^2)
VScal(atol, rtol, v) == Undefined \* atol + rtol*|v_i|
VDot(v, w)     == Undefined
VCat(v, w)     == Undefined

(* ---- matrices ---- *)
MVec(m, v)     == Undefined  \* matrix times vector
MMul(m, k)     == Undefined  \* product
MSolve(m, b)   == Undefined  \* solution of m x = b (Gaussian elimination, full pivoting)
MShift(a, m)   == Undefined  \* a * identity - m
MRadau(h, m)   == Undefined  \* (1/h) inv(A) (x) I - I (x) m for the 3-stage Radau IIA matrix A
=============================================================================
