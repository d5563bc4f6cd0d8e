------------------------------- MODULE Atomics -------------------------------
(* What a user may rely on: concurrent updates of one atomic variable take     *)
(* effect one at a time, each between its call and its return, each exactly    *)
(* once, and each returns the result of that very update.                      *)
EXTENDS AtomOps, FiniteSets
CONSTANTS Threads, W, U
VARIABLES val,      \* the variable
          pend      \* thread -> [st |-> "idle"] | "called" with op, x | "taken" with r
Idle == [st |-> "idle"]
Init(v0) == val = v0 /\ pend = [t \in Threads |-> Idle]
Call(t, op, x) == /\ pend[t].st = "idle"
                  /\ pend' = [pend EXCEPT ![t] = [st |-> "called", op |-> op, x |-> x]]
                  /\ UNCHANGED val
Take(t) == /\ pend[t].st = "called"
           /\ LET op == pend[t].op  x == pend[t].x IN
              /\ val' = Apply(op, val, x, W, U)
              /\ pend' = [pend EXCEPT ![t] = [st |-> "taken", r |-> Result(op, val, x, W, U)]]
Return(t, r) == /\ pend[t].st = "taken" /\ pend[t].r = r
                /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED val
=============================================================================
