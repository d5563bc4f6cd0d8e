---------------------------- MODULE Trace_LuaConv ----------------------------
(* Every recorded conversion, call and lookup against LuaConv.                 *)
EXTENDS LuaConv, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
B(x) == IF x THEN 1 ELSE 0
Ok(e) ==
  CASE e.op = "read" -> Reads(e.T, e.v, e.r)                  \* as<T>() of a value
    [] e.op = "readd" -> IF e.v.k = 0 THEN e.r = e.d ELSE Reads(e.T, e.v, e.r)   \* as<T>(default)
    [] e.op = "tuple" -> ReadsAll(e.Ts, e.vs, e.rs)           \* as<T...>() of several results
    [] e.op = "args" -> Arrives(e.vs, e.rs)
    [] e.op = "echo" -> Len(e.vs) = 1 => Reads(e.T, e.vs[1], e.r)   \* through an identity function
    \* a lookup: v is what Lua holds under the key (nil if nothing), r what the handle reads as
    [] e.op = "look" -> /\ (e.tab = 0) = (e.thrown = 1)       \* indexing something that is no table
                        /\ e.thrown = 0 => (e.empty = 1) = (e.v.k = 0) /\ (e.v.k # 0 => e.size = (IF e.v.k = 5 THEN Len(e.v.e) ELSE IF e.v.k = 4 THEN Len(e.v.c) ELSE 0))
    \* calling: ok = 1 iff it is a function that returns without error and its last result is not nil
    \* a function that returns nothing: an error or an empty result
    [] e.op = "call" -> /\ (e.fun = 1 /\ e.err = 0 /\ e.vs = <<>>) \/ (e.thrown = 1) = (e.fun = 0 \/ e.err = 1 \/ (Len(e.vs) > 0 /\ e.vs[Len(e.vs)].k = 0))
                        /\ e.thrown = 0 => e.size = Len(e.vs) /\ (e.empty = 1) = (\A i \in 1..Len(e.vs) : e.vs[i].k = 0)
    \* a value anywhere on the stack is read and taken away, the others stay
    [] e.op = "slot" -> /\ Reads(e.T, e.vs[e.i], e.r)
                        /\ e.r.k # 9 => e.after = [j \in 1..Len(e.vs) - 1 |-> e.vs[IF j < e.i THEN j ELSE j + 1]]
    [] e.op = "script" -> (e.thrown = 1) = (e.bad = 1)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Ok(E)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
