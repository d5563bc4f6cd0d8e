---------------------------- MODULE Trace_AtomSeq ----------------------------
(* Sequential calls (C03): every call form must store and return what the      *)
(* plain operation gives; mechanism lines: the scheme in effect is the one     *)
(* requested.                                                                  *)
EXTENDS AtomOps, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
\* int variable, operand x/2 of type double: computed in double, truncated when stored
Half(op, v, x) ==
    CASE op = "half_add" -> TruncDiv(2 * v + x, 2)
      [] op = "half_sub" -> TruncDiv(2 * v - x, 2)
      [] op = "half_mul" -> TruncDiv(v * x, 2)
      [] op = "half_min" -> IF x < 2 * v THEN TruncDiv(x, 2) ELSE v
      [] op = "half_max" -> IF 2 * v < x THEN TruncDiv(x, 2) ELSE v
Halves == {"half_add", "half_sub", "half_mul", "half_min", "half_max"}
\* values key*10+tag compared by key only: a tie keeps the old value
Tie(op, v, x) == CASE op = "tie_min" -> IF (x \div 10) < (v \div 10) THEN x ELSE v
                   [] op = "tie_max" -> IF (v \div 10) < (x \div 10) THEN x ELSE v
Ties == {"tie_min", "tie_max"}
Post == CASE E.op \in Ties -> Tie(E.op, E.v, E.x)
          [] E.op \in Halves -> Half(E.op, E.v, E.x)
          [] E.op = "store" -> E.x
          [] E.op \in {"construct", "print"} -> E.v
          [] OTHER -> Apply(E.op, E.v, E.x, E.w, E.u)
Ret == CASE E.op \in Halves \cup Ties -> Post
         [] E.op \in {"store", "construct", "print"} -> Post
         [] OTHER -> Result(E.op, E.v, E.x, E.w, E.u)
CallOk == E.post = Post /\ E.ret = Ret
\* the mechanism by which an uncontended update took effect
MechOk ==
    /\ ~E.held
    /\ CASE E.req = "serial" -> E.lock = 0 /\ E.rmw = 0
         [] E.req = "lock" -> E.lock >= 1 /\ E.rmw = 0
         [] E.req = "cpp" -> E.lock = 0 /\ E.rmw = 1 /\ E.store = 0 /\ E.pun = 0
         [] E.req = "strong" -> E.lock = 0 /\ E.rmw = 1 /\ E.store = 0 /\ E.weak = 0 /\ E.fetch = 0 /\ E.pun = 0
         [] E.req = "weak" -> E.lock = 0 /\ E.rmw = 1 /\ E.store = 0 /\ E.weak = 1 /\ E.fetch = 0 /\ E.pun = 0
         [] E.req = "strong_pun" -> E.lock = 0 /\ E.rmw = 1 /\ E.store = 0 /\ E.weak = 0 /\ E.fetch = 0 /\ (E.canpun => E.pun = 1)
         [] E.req = "weak_pun" -> E.lock = 0 /\ E.rmw = 1 /\ E.store = 0 /\ E.weak = 1 /\ E.fetch = 0 /\ (E.canpun => E.pun = 1)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ (IF "req" \in DOMAIN E THEN MechOk ELSE CallOk)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
