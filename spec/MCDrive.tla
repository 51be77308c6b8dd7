------------------------------ MODULE MCDrive ------------------------------
(* All short sequences of driving operations on one or two integrators. *)
EXTENDS Drive, FiniteSets, TLC, Json

CONSTANTS W,        \* integrators
          MaxRun,   \* longest run
          Depth,    \* operations
          Show,    \* print the operation sequences
          Fault    \* "none", or how the driving is spoilt

VARIABLES run, pos, mode, yield, seen, ops
vars == <<run, pos, mode, yield, seen, ops>>

(* Only the last step may fail to record a point. *)
Runs == UNION {{r \in [1..l -> BOOLEAN] : \A k \in 1..(l - 1) : r[k]} : l \in 1..MaxRun}

Init ==
  /\ run \in [W -> Runs]
  /\ pos = [w \in W |-> 0]
  /\ mode = [w \in W |-> "direct"]
  /\ yield = [w \in W |-> << >>]   \* points yielded by iterators
  /\ seen = [w \in W |-> << >>]    \* points recorded by operations other than next
  /\ ops = << >>

Do(w, op) ==
  LET p0 == Points(run[w], pos[w])
      p1 == Points(run[w], After(op, run[w], pos[w]))
      new == [q \in 1..(p1 - p0) |-> p0 + q]
  IN
  /\ Can(op, mode[w])
  /\ pos' = IF Fault = "leak" /\ op = "integrate" THEN [v \in W |-> After(op, run[v], pos[v])]
            ELSE [pos EXCEPT ![w] = After(op, run[w], @)]
  /\ mode' = [mode EXCEPT ![w] = Mode(op, @)]
  /\ yield' = [yield EXCEPT ![w] = IF op = "next" /\ Returns(op, run[w], pos[w])
                                           /\ ~(Fault = "tail" /\ Finished(run[w], pos[w] + 1)) THEN Append(@, p1) ELSE @]
  /\ seen' = [seen EXCEPT ![w] = IF op = "next" THEN @ ELSE @ \o new]
  /\ ops' = Append(ops, <<w, op>>)
  /\ UNCHANGED run

Next == Len(ops) < Depth /\ \E w \in W, op \in Ops : Do(w, op)
Spec == Init /\ [][Next]_vars

(* Every point is reported exactly once, in order within each channel. *)
Increasing(q) == \A a, b \in 1..Len(q) : a < b => q[a] < q[b]
EachOnce == \A w \in W :
  /\ Increasing(yield[w]) /\ Increasing(seen[w])
  /\ {yield[w][q] : q \in 1..Len(yield[w])} \cup {seen[w][q] : q \in 1..Len(seen[w])} = 1..Points(run[w], pos[w])
  /\ Len(yield[w]) + Len(seen[w]) = Points(run[w], pos[w])
(* An exhausted iterator has delivered the end point. *)
Complete == \A w \in W : \A op \in {"next"} :
  Can(op, mode[w]) /\ ~Returns(op, run[w], pos[w]) =>
    Points(run[w], pos[w]) = Points(run[w], Len(run[w]))
(* The other integrators do not move. *)
Alone == [][\A w \in W : (ops' # ops /\ ops'[Len(ops')][1] # w) => pos'[w] = pos[w] /\ mode'[w] = mode[w]]_vars
Absorbing == [][\A w \in W : Finished(run[w], pos[w]) => pos'[w] = pos[w] /\ yield'[w] = yield[w] /\ seen'[w] = seen[w]]_vars

(* Not so: iterators yield something, some runs end without a point. *)
NeverYields == \A w \in W : yield[w] = << >>
NeverMixed == \A w \in W : yield[w] = << >> \/ seen[w] = << >>
AlwaysPoint == \A w \in W : Finished(run[w], pos[w]) => Points(run[w], pos[w]) = Len(run[w])
Emit == (Show /\ Len(ops) = Depth /\ run = CHOOSE r \in [W -> Runs] : TRUE) => PrintT(ToJson(ops))
=============================================================================
