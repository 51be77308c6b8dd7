------------------------------ MODULE GenRadau ------------------------------
(* Behaviours of the Radau5 control flow, written out so that they can be    *)
(* forced upon the code. See module GenDp5.                                  *)
EXTENDS MCRadau, Sequences, Json

CONSTANTS Safe,    \* safety factor of the controller in percent
          Depth,   \* longest script
          Sing     \* only behaviours that are likely to meet several singular matrices

VARIABLE tr
gvars == <<g, c, h, tr>>

GInit == Init /\ tr = << >> /\ (Sing => g.d0 = DtMax)

Its == h'.its - h.its
Est == h'.est > h.est
Word(x) == tr' = Append(tr, x)

GStart == Start /\ UNCHANGED tr
GBegin == Begin /\ UNCHANGED tr
GLimit == Limit /\ UNCHANGED tr
(* A Jacobian that makes the next matrix singular can only be returned when
   the next step size is known. *)
Known == IF tr = << >> THEN TRUE ELSE
  LET w == tr[Len(tr)] IN
  CASE w[1] \in {"S", "F"} -> TRUE
    [] w[1] = "R" -> c.first
    [] w[1] = "C" -> w[4]
    [] OTHER -> FALSE
GSingular == Singular /\ Known /\ Word(<<"S">>)
(* Divergence halves the step; an iteration that is too slow shrinks it by
   a factor below 0.8; 0 stands for failure until the step is too small. *)
GNewtonFail ==
  /\ NewtonFail
  /\ Abs(c'.dt) \in {0, Abs(c.dt) \div 2}
  /\ Word(<<"F", Its, Abs(c'.dt)>>)
(* The estimate is refined whenever it is too large on a first step or after
   a failure. *)
GReject ==
  /\ Reject
  /\ Est = R!CanRefine(c)
  /\ IF c.first THEN Abs(c'.dt) \in {0, Abs(c.dt) \div 2} ELSE 100 * Abs(c'.dt) < Safe * Abs(c.dt)
  /\ Word(<<"R", Its, Est, Abs(c'.dt)>>)
(* The convergence rate decides about a new Jacobian; the number of
   iterations stands for it. *)
GAccept ==
  /\ Accept
  /\ LET d == Abs(c'.dt)
         newj == h'.newj > h.newj
     IN /\ ~c.last => newj = (Its > 2)
        /\ IF g.cb \/ c.last THEN d = Abs(c.dt) \/ c'.last ELSE 100 * d >= Safe * Abs(c.dt)
        /\ Word(<<"A", Its, Est, d>>)
GCallback ==
  /\ Callback
  /\ c.ret # "Continue" => c'.dt = c.dt /\ ~c'.chg
  /\ IF g.cb THEN Word(<<"C", c'.ret, Abs(c'.dt), c'.chg>>) ELSE UNCHANGED tr

(* Steps keep their size, failures halve it, callbacks only change the equation. *)
Narrow ==
  Len(tr') > Len(tr) =>
    LET w == tr'[Len(tr')] IN
    CASE w[1] = "S" -> TRUE
      [] w[1] = "R" -> FALSE
      [] w[1] = "F" -> w[3] # 0
      [] w[1] = "C" -> w[3] = Abs(c.dt)
      [] OTHER -> w[4] = Abs(c.dt) \/ c'.last

GNext == /\ Len(tr) < Depth
         /\ GStart \/ GBegin \/ GLimit \/ GSingular \/ GNewtonFail \/ GReject \/ GAccept \/ GCallback
         /\ Sing => Narrow
Spec2 == GInit /\ [][GNext]_gvars

Done == (c.ph = "idle" /\ c.ret # "Continue") \/ Len(tr) = Depth
Emit == Done => PrintT(ToJson(<<g, tr>>))
=============================================================================
