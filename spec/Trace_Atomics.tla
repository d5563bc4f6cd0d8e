---------------------------- MODULE Trace_Atomics ----------------------------
(* Recorded call/return histories against Atomics.  The points at which the    *)
(* updates took effect are not observable, so the state here is the set of all *)
(* states of Atomics that explain the history so far.  An empty set refutes    *)
(* the history.  With RETS=0 returned values are not compared (C01), with      *)
(* RETS=1 they are (C02).                                                      *)
EXTENDS AtomOps, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Rets == IOEnv.RETS = "1"
Threads == 1..3
VARIABLES S, l, w, u
vars == <<S, l, w, u>>
E == Trace[l]
Idle == [st |-> 0, op |-> "", x |-> 0]        \* st: 0 idle, 1 called, 2 taken (x: its result)
\* Take(t) of Atomics
Taken(c, t) == LET p == c.p[t] IN
    [v |-> Apply(p.op, c.v, p.x, w, u), p |-> [c.p EXCEPT ![t] = [st |-> 2, op |-> p.op, x |-> Result(p.op, c.v, p.x, w, u)]]]
Succ(C) == UNION {{Taken(c, t) : t \in {t \in Threads : c.p[t].st = 1}} : c \in C}
RECURSIVE Close(_, _)
Close(C, F) == IF F = {} THEN C ELSE LET N == Succ(F) \ C IN Close(C \cup N, N)
DoInit == E.k = "init" /\ S' = {[v |-> E.v, p |-> [t \in Threads |-> Idle]]} /\ w' = E.w /\ u' = E.u
DoCall == /\ E.k = "call" /\ UNCHANGED <<w, u>>
          /\ LET C == {[v |-> c.v, p |-> [c.p EXCEPT ![E.t] = [st |-> 1, op |-> E.op, x |-> E.x]]] : c \in S} IN S' = Close(C, C)
DoRet  == /\ E.k = "ret" /\ UNCHANGED <<w, u>>
          /\ S' = {[v |-> c.v, p |-> [c.p EXCEPT ![E.t] = Idle]] : c \in {c \in S : c.p[E.t].st = 2 /\ (Rets => c.p[E.t].x = E.x)}}
DoEnd  == /\ E.k = "end" /\ UNCHANGED <<w, u>>
          /\ S' = {c \in S : c.v = E.v /\ \A t \in Threads : c.p[t].st = 0}
Init == S = {} /\ l = 1 /\ w = 0 /\ u = FALSE
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (DoInit \/ DoCall \/ DoRet \/ DoEnd)
        /\ S' # {}
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
