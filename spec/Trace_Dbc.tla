----------------------------- MODULE Trace_Dbc -----------------------------
EXTENDS Integers, Sequences, Json, IOUtils, TLC
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cfg, fired, raised, l
D == INSTANCE Dbc
E == TraceLog[l]
\* e.what: the exception that left (0 none, 1 run time, 2 logic, 3 not implemented, 4 file, 5 another std::logic_error, 9 abort)
Check(e) == LET k == D!Cond(e.op, e.a, e.b, e.c) IN
            /\ e.ret = D!Value(e.op, k)
            /\ (e.what # 0) = D!Raises(e.op, k)
            /\ (D!Raises(e.op, k) => e.what \in {2, 5})
            /\ (D!Fires(e.op, k) /\ cfg.action # "nothing" => e.msg = 1)      \* names condition, file and line
            /\ e.fired = fired'
Kinds == [runtime |-> 1, logic |-> 2, notimpl |-> 3, file |-> 4]
Err(e) == /\ e.what = IF e.c = 1 THEN Kinds[e.op] ELSE 9
          /\ e.msg = 1
Init == cfg = [action |-> "none", on |-> FALSE] /\ fired = 0 /\ raised = FALSE /\ l = 1
Next == /\ l <= Len(TraceLog) /\ l' = l + 1
        /\ CASE E.op = "new" -> cfg' = [action |-> E.action, on |-> E.on = 1] /\ fired' = 0 /\ raised' = FALSE
             [] E.op = "set" -> D!Install(E.action)
             [] E.op = "asserttrue" -> D!AssertTrue(E.a # 0) /\ E.what = (IF E.a # 0 THEN 0 ELSE IF E.c = 1 THEN 1 ELSE 9) /\ E.msg = 1 /\ E.ret = E.b
             [] E.op \in DOMAIN Kinds -> D!Error /\ Err(E)
             [] OTHER -> D!Exec(E.op, E.a, E.b, E.c) /\ Check(E)
Spec == Init /\ [][Next]_<<cfg, fired, raised, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
