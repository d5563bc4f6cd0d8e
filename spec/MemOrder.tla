------------------------------- MODULE MemOrder -------------------------------
(* Memory orders, the strength relation between them, and the guarantee users  *)
(* want from them: message passing.  A publisher writes data, then updates a   *)
(* flag variable with order PubOrd; a consumer updates the variable with       *)
(* order ConOrd and, if its update observed the publication (directly or       *)
(* through a relaxed update of a third thread), reads the data.                *)
EXTENDS Integers, FiniteSets
Orders == {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"}
Acq(o) == o \in {"acquire", "acq_rel", "seq_cst"}
Con(o) == Acq(o) \/ o = "consume"
Rel(o) == o \in {"release", "acq_rel", "seq_cst"}
AtLeast(used, asked) == /\ (Acq(asked) => Acq(used)) /\ (Con(asked) => Con(used))
                        /\ (Rel(asked) => Rel(used)) /\ (asked = "seq_cst" => used = "seq_cst")
\* what a failed compare-and-swap gets when only one order is passed
Derived(o) == CASE o = "acq_rel" -> "acquire" [] o = "release" -> "relaxed" [] OTHER -> o
-----------------------------------------------------------------------------
VARIABLES pub, con, mid,      \* the orders the three threads actually use
          asked,              \* the orders publisher and consumer asked for
          data, msgs,         \* data: the consumer's view; msgs: list of values of the flag with the view they release
          pc, seen
vars == <<pub, con, mid, asked, data, msgs, pc, seen>>
Top == msgs[Cardinality(DOMAIN msgs)]
Init == /\ pub \in Orders /\ con \in Orders /\ mid \in Orders
        /\ asked \in Orders \X Orders
        /\ AtLeast(pub, asked[1]) /\ AtLeast(con, asked[2])
        /\ data = 0 /\ msgs = [i \in {1} |-> [pubd |-> FALSE, view |-> 0]]
        /\ pc = [p |-> 0, m |-> 0, c |-> 0] /\ seen = FALSE
Push(m) == msgs' = [i \in 1..Cardinality(DOMAIN msgs) + 1 |-> IF i \in DOMAIN msgs THEN msgs[i] ELSE m]
Write == pc.p = 0 /\ pc' = [pc EXCEPT !.p = 1] /\ UNCHANGED <<pub, con, mid, asked, data, msgs, seen>>
\* an update reads the latest value (it is a read-modify-write) and continues its release sequence
Publish == /\ pc.p = 1 /\ pc' = [pc EXCEPT !.p = 2]
           /\ Push([pubd |-> TRUE, view |-> IF Rel(pub) THEN 1 ELSE Top.view])
           /\ UNCHANGED <<pub, con, mid, asked, data, seen>>
Relay == /\ pc.m = 0 /\ pc' = [pc EXCEPT !.m = 1] /\ Push([pubd |-> Top.pubd, view |-> Top.view])
         /\ UNCHANGED <<pub, con, mid, asked, data, seen>>
Consume == /\ pc.c = 0 /\ pc' = [pc EXCEPT !.c = 1] /\ seen' = Top.pubd
           /\ data' = IF Acq(con) THEN Top.view ELSE data
           /\ Push([pubd |-> Top.pubd, view |-> Top.view])
           /\ UNCHANGED <<pub, con, mid, asked>>
Next == Write \/ Publish \/ Relay \/ Consume
Spec == Init /\ [][Next]_vars
\* if the caller asked for release and acquire, data published is data seen
MessagePassing == (pc.c = 1 /\ seen /\ Rel(asked[1]) /\ Acq(asked[2])) => data = 1
\* and the relation is no stronger than needed: it is a partial order
ASSUME /\ \A a \in Orders : AtLeast(a, a) /\ AtLeast("seq_cst", a) /\ AtLeast(a, "relaxed")
       /\ \A a, b, c \in Orders : AtLeast(a, b) /\ AtLeast(b, c) => AtLeast(a, c)
=============================================================================
