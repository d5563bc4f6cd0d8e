---------------------------- MODULE Trace_MemOrder ----------------------------
(* Each line: the orders a caller passed (n of them) and the shared accesses   *)
(* the call made.  The access by which the update took effect must be a        *)
(* read-modify-write at least as strong as asked, failed attempts at least as  *)
(* strong as the failure order; nothing else may write the variable.           *)
EXTENDS MemOrder, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
AskedFail == IF E.n = 2 THEN E.f ELSE Derived(E.s)
Ok == /\ \E i \in DOMAIN E.acc : E.acc[i].k = "rmw"
      /\ \A i \in DOMAIN E.acc :
           CASE E.acc[i].k = "rmw" -> AtLeast(E.acc[i].o, E.s)
             [] E.acc[i].k = "fail" -> AtLeast(E.acc[i].o, AskedFail)
             [] OTHER -> FALSE
TInit == l = 1 /\ pub = "" /\ con = "" /\ mid = "" /\ asked = <<>> /\ data = 0 /\ msgs = <<>> /\ pc = <<>> /\ seen = FALSE
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
