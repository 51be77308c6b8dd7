------------------------------- MODULE GenDp5 -------------------------------
(* Behaviours of the Dormand-Prince control flow, written out so that they   *)
(* can be forced upon the code: the harness answers evaluations so that each *)
(* attempt has the outcome, and each new step size the value, found here.    *)
EXTENDS MCDp5, Sequences, Json

CONSTANTS Safe,   \* safety factor of the controller in percent
          Depth   \* longest script

VARIABLE tr
gvars == <<g, c, h, tr>>

GInit == Init /\ tr = << >>

(* Without callback the proposal is the controller's: it shrinks by at most
   the safety factor after a step that passes, by more after one that fails.
   A callback sets the step size anyway, so one proposal is enough. *)
GAccept ==
  /\ Accept
  /\ IF g.cb THEN Abs(c'.dt) = Abs(c.dt)
     ELSE /\ 100 * Abs(c'.dt) >= Safe * Abs(c.dt)
          /\ c.last => Abs(c'.dt) = Abs(c.dt)
  /\ tr' = Append(tr, <<"A", Abs(c'.dt)>>)
GReject ==
  /\ Reject
  /\ 100 * Abs(c'.dt) < Safe * Abs(c.dt)
  /\ tr' = Append(tr, <<"R", Abs(c'.dt)>>)
GCallback ==
  /\ Callback
  /\ c.ret # "Continue" => c'.dt = c.dt
  /\ tr' = IF g.cb THEN Append(tr, <<"C", c'.ret, Abs(c'.dt)>>) ELSE tr

GNext == /\ Len(tr) < Depth
         /\ \/ Start /\ UNCHANGED tr
            \/ GAccept \/ GReject \/ GCallback
Spec2 == GInit /\ [][GNext]_gvars

Done == (c.ph = "idle" /\ c.ret # "Continue") \/ Len(tr) = Depth
Emit == Done => PrintT(ToJson(<<g, tr>>))
=============================================================================
