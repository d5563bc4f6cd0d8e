------------------------------- MODULE MC_Dbc -------------------------------
EXTENDS Dbc
CONSTANTS Vals, Len0
VARIABLES run, bad     \* steps taken; violated and switched on, by the action in place at the time
Ops == Void \cup Always \cup {"equal", "notequal", "inrange", "greater", "greatereq", "less", "oneof"}
Acts == {"throw", "notify", "nothing", "custom"}
Init == /\ cfg \in [action : Acts, on : BOOLEAN]
        /\ fired = 0 /\ raised = FALSE /\ run = 0 /\ bad = [a \in Acts |-> 0]
Next == \/ /\ run < Len0 /\ run' = run + 1
           /\ \E op \in Ops, a, b, c \in Vals : Exec(op, a, b, c) /\ bad' = [bad EXCEPT ![cfg.action] = @ + B(Fires(op, Cond(op, a, b, c)))]
        \/ run < Len0 /\ run' = run + 1 /\ bad' = bad /\ \E c \in BOOLEAN : AssertTrue(c)
        \/ run < Len0 /\ run' = run + 1 /\ bad' = bad /\ \E a \in Acts : Install(a)
vars == <<cfg, fired, raised, run, bad>>
Spec == Init /\ [][Next]_vars
Exactly == fired = bad["notify"] + bad["custom"]
ThrowLeaves == bad["throw"] <= 1 /\ (bad["throw"] = 1 => raised)
NothingIsSilent == [][cfg.action = "nothing" => fired' = fired]_vars
\* duality of the comparison checks
Dual == \A a, b \in Vals \ {NaN} :
                           /\ Cond("equal", a, b, 0) = ~Cond("notequal", a, b, 0) /\ Cond("less", a, b, 0) = ~Cond("greatereq", a, b, 0)
                           /\ Cond("greater", a, b, 0) = Cond("less", b, a, 0) /\ (Cond("inrange", a, b, b) = FALSE)
=============================================================================
