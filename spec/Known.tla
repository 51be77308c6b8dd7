-------------------------------- MODULE Known --------------------------------
(***************************************************************************)
(* Initial value problems and their solutions. A problem P has n           *)
(* components, rates c, frequencies w, a start point (t0, u0) and possibly *)
(* the unit vector v of a reflection that mixes the components.            *)
(***************************************************************************)
EXTENDS F64

Reflect(v, x) ==
  IF v = << >> THEN x ELSE VSub(x, VScale(FMul(FInt(2), VDot(v, x)), v))

(* Component i of the unmixed solution at time t with rates c, from y0. *)
Comp(P, c, y0, t, i) ==
  LET T == FSub(t, P.t0)
      y == VGet(y0, i)
      w == VGet(P.w, i)
      one == FInt(1)
      wave == FSub(FSin(FMul(w, t)), FSin(FMul(w, P.t0)))
      pair == ((i - 1) \div 2) + 1
      first == i % 2 = 1
  IN CASE P.fam = "decay" -> FMul(y, FExp(FNeg(FMul(VGet(c, i), T))))
       [] P.fam = "osc" ->
            LET a == FMul(VGet(c, pair), T)
            IN IF first THEN FAdd(FMul(y, FCos(a)), FMul(VGet(y0, i + 1), FSin(a)))
               ELSE FSub(FMul(y, FCos(a)), FMul(VGet(y0, i - 1), FSin(a)))
       [] P.fam = "logistic" ->
            FDiv(y, FAdd(y, FMul(FSub(one, y), FExp(FNeg(FMul(VGet(c, i), T))))))
       [] P.fam = "trig" -> FAdd(y, wave)
       [] P.fam = "follow" -> FCos(FMul(w, t))
       [] P.fam = "expsin" -> FMul(y, FExp(FMul(VGet(c, i), wave)))
       [] P.fam = "riccati" -> FDiv(y, FAdd(one, FMul(FMul(VGet(c, i), y), T)))
       [] P.fam = "kaps" -> IF first THEN FExp(FMul(FInt(-2), T)) ELSE FExp(FNeg(T))

Solution(P, c, t) ==
  LET y0 == Reflect(P.v, P.u0)
  IN Reflect(P.v, VMk([i \in 1..P.n |-> Comp(P, c, y0, t, i)]))

(* Components influence one another. *)
Coupled(P) == P.fam \in {"osc", "kaps"} \/ P.v # << >>
=============================================================================
