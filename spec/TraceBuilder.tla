---------------------------- MODULE TraceBuilder ----------------------------
(* Validates freshly built integrators, one per record: sets is the sequence *)
(* of setters called, o the options found afterwards.                        *)
EXTENDS F64, Builder, TLC, Json

CONSTANTS TraceFile, Prop
VARIABLES s, i, bad

Log == ndJsonDeserialize(TraceFile)
Flag(cond, why) == IF cond THEN {} ELSE {<<"C14", why>>}
L(x) == FLit(x)

Common == [reltol |-> L("1e-3"), abstol |-> L("1e-7"), dense |-> FALSE, dtstart |-> L("1e-6"),
           dtmax |-> L("Infinity"), max_steps |-> 100000, max_newt_iter |-> 7, max_stiff |-> 1000,
           modern_pred |-> TRUE, safe |-> L("0.9"), facr |-> L("0"), facl |-> L("0"), quot1 |-> L("0"),
           quot2 |-> L("0"), beta |-> L("0"), fnewt |-> L("0"), use_ext_col |-> TRUE, hess |-> FALSE,
           theta |-> L("0")]
DefaultOf(alg) ==
  IF alg = "dp5"
  THEN [Common EXCEPT !.beta = L("0.04"), !.facr = L("10"), !.facl = L("0.2")]
  ELSE [Common EXCEPT !.theta = L("0.001"), !.quot1 = L("1"), !.quot2 = L("1.2"), !.facr = L("0.125"),
                      !.facl = L("5")]

E13 == L("1e-13")
Near(a, b) == FNear(a, b, L("0"), E13)

(* Radau5 works with other tolerances than the user's. *)
Rt(o) == FMul(L("0.1"), FPow(o.reltol, FRat(2, 3)))
At(o) == FMul(Rt(o), FDiv(o.abstol, o.reltol))
Fn(o) == IF FLt(L("0"), o.fnewt) THEN o.fnewt
         ELSE FMax(FDiv(L("2.220446049250313e-15"), Rt(o)), FMin(L("0.03"), FSqrt(Rt(o))))

Rescaled == {"reltol", "abstol", "fnewt"}

Result(S) ==
  LET want == Declared(DefaultOf(S.alg), S.sets)
      o == S.o
      plain == IF S.alg = "dp5" THEN DOMAIN want ELSE DOMAIN want \ Rescaled
  IN
  IF S.end # "ok" THEN {<<"C14", "construction fails">>}
  ELSE
    UNION {Flag(o[n] = want[n], n) : n \in plain}
    \cup (IF S.alg = "dp5" THEN {}
          ELSE Flag(Near(o.reltol, Rt(want)), "rescaled relative tolerance")
               \cup Flag(Near(o.abstol, At(want)), "rescaled absolute tolerance")
               \cup Flag(Near(o.fnewt, Fn(want)), "Newton tolerance"))
    \cup Flag(DOMAIN o = DOMAIN want, "harness: options")
    \cup Flag(S.x.t = S.t0 /\ VEq(S.x.u, S.u0), "initial time and state")
    \cup Flag(S.tfinal = S.tf, "final time")
    \cup Flag(S.tdir = FInt(S.dir), "direction")
    \cup Flag(FEq(S.x.dt, FMul(FInt(S.dir), FMin(FAbs(want.dtstart), want.dtmax))), "initial step size")
    \cup Flag(S.x.ret = "Continue" /\ S.x.st = <<0, 0, 0, 0, 0, 0, 0>>, "initial code and statistics")
    \cup Flag(S.x.k = S.k, "parameters")

Init == s \in 1..Len(Log) /\ i = 0 /\ bad = Result(Log[s])
Next == FALSE /\ UNCHANGED <<s, i, bad>>
Good == \A b \in bad : b[1] # Prop
=============================================================================
