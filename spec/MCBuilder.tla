----------------------------- MODULE MCBuilder -----------------------------
(* All short sequences of setters (values are indices into a table of the    *)
(* check).                                                                   *)
EXTENDS Builder, TLC, Json
CONSTANTS Depth, Vals, Show,
          Fault   \* "none", or how the setters are spoilt
VARIABLES opts, sets
Default == [n \in Names |-> 0]
Init == opts = Default /\ sets = << >>
Done(n, v) ==
  CASE Fault = "crossed" /\ n = "quot2" -> Set(opts, "quot1", v)
    [] Fault = "first" /\ opts[n] # 0 -> opts
    [] Fault = "both" /\ n = "reltol" -> Set(Set(opts, n, v), "abstol", v)
    [] OTHER -> Set(opts, n, v)
Next == /\ Len(sets) < Depth
        /\ \E n \in Names, v \in Vals : opts' = Done(n, v) /\ sets' = Append(sets, <<n, v>>)
Spec == Init /\ [][Next]_<<opts, sets>>

Agree == opts = Declared(Default, sets) /\ opts = Applied(Default, sets)
(* Exchanging neighbouring setters of different options changes nothing. *)
Swap(q) == [p \in 1..Len(sets) |-> IF p = q THEN sets[q + 1] ELSE IF p = q + 1 THEN sets[q] ELSE sets[p]]
Commute == \A q \in 1..(Len(sets) - 1) :
  sets[q][1] # sets[q + 1][1] => Applied(Default, Swap(q)) = opts
OnlyNamed == \A n \in Names : Given(sets, n) = {} => opts[n] = 0
Emit == (Show /\ Len(sets) > 0) => PrintT(ToJson(sets))
EmitLong == (Show /\ Len(sets) = Depth) => PrintT(ToJson(sets))
=============================================================================
