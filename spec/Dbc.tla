-------------------------------- MODULE Dbc --------------------------------
(* Contract checks: a program is a sequence of checks executed in one build
   configuration.  A check whose condition holds, or whose class is switched
   off, changes nothing; a violated one triggers the configured action once. *)
EXTENDS Integers, Sequences
VARIABLES cfg,       \* [action : throw | notify | nothing | custom, on : BOOLEAN]
          fired,     \* notices written / custom actions run so far
          raised     \* the program has been left by an exception
Void == {"require", "check", "ensure"}             \* no value when switched off
Always == {"insist"}                               \* never switched off
NaN == 7                                           \* an operand that is not a number: unequal to all, in no order
Cond(op, a, b, c) ==
  CASE op \in Void \cup Always -> a # 0
    [] NaN \in {a, b} \/ (op = "inrange" /\ c = NaN) -> op = "notequal"
    [] op = "equal" -> a = b
    [] op = "notequal" -> a # b
    [] op = "inrange" -> b < a /\ a < c
    [] op = "greater" -> a > b
    [] op = "greatereq" -> a >= b
    [] op = "less" -> a < b
    [] op = "oneof" -> a = b \/ a = c              \* the set {b, c}
Active(op) == op \in Always \/ cfg.on
Fires(op, cond) == Active(op) /\ ~cond
Raises(op, cond) == Fires(op, cond) /\ cfg.action = "throw"
\* what the check evaluates to: 2 = nothing to evaluate to
B(x) == IF x THEN 1 ELSE 0
Value(op, cond) == IF Raises(op, cond) \/ (op \in Void /\ ~cfg.on) THEN 2
                   ELSE IF op = "oneof" /\ ~cfg.on THEN 1 ELSE B(cond)
Exec(op, a, b, c) ==
  LET k == Cond(op, a, b, c) IN
  /\ ~raised
  /\ fired' = IF Fires(op, k) /\ cfg.action \in {"notify", "custom"} THEN fired + 1 ELSE fired
  /\ raised' = Raises(op, k)
  /\ UNCHANGED cfg
\* the error macros leave the program in every configuration
Error == /\ ~raised /\ raised' = TRUE /\ UNCHANGED <<cfg, fired>>
\* the program may install another action at any time
Install(a) == cfg' = [cfg EXCEPT !.action = a] /\ UNCHANGED <<fired, raised>>
AssertTrue(c) == IF c THEN ~raised /\ UNCHANGED <<cfg, fired, raised>> ELSE Error
=============================================================================
