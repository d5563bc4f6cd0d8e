-------------------------- MODULE Trace_InputFile --------------------------
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES glob, file, last, l
F == INSTANCE InputFile WITH Names <- 1..4, Objs <- 1..2
E == Trace[l]
Do(e) == CASE e.op = "new" -> glob' = [o \in 1..2 |-> F!Empty] /\ (\A o \in 1..2 : e.file[o] \in {0, 9}) /\ file' = [o \in 1..2 |-> e.file[o]] /\ last' = 0
           [] e.op = "load" -> F!Load(e.o, e.id, e.how, e.st)
           [] e.op = "read" -> F!Read(e.o, e.n)
\* how every way of asking sees every object: operator[], is it empty, try_access, the macros
Obs(e, g, f) == /\ e.file = <<f[1], f[2]>>
                /\ \A o \in 1..2, n \in 1..4 : e.seen[o][n] = <<g[o][n], g[o][n], IF g[o][n] = 0 THEN 1 ELSE 0>>
Init == F!Init /\ l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Do(E) /\ last' = E.ret
        /\ \E g \in {glob'}, f \in {file'} : Obs(E, g, f)
Spec == Init /\ [][Next]_<<glob, file, last, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
