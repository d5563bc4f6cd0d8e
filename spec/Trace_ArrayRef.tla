--------------------------- MODULE Trace_ArrayRef ---------------------------
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES mem, off, len, refused, l
AR == INSTANCE ArrayRef WITH MAX <- 99
E == Trace[l]
P == Trace[l - 1]
New == E.op = "new" /\ mem' = E.mem /\ off' = -1 /\ len' = 0 /\ refused' = FALSE
Do(e) == CASE e.op = "make" -> AR!Make(e.a, e.b)
           [] e.op = "clear" -> AR!Clear
           [] e.op = "sub" -> AR!Sub(e.a, IF e.b >= 100 THEN 99 ELSE e.b)
           [] e.op = "pre" -> AR!DropFront(e.a)
           [] e.op = "suf" -> AR!DropBack(e.a)
           [] e.op = "popf" -> AR!DropFront(1)
           [] e.op = "popb" -> AR!DropBack(1)
           [] e.op = "write" -> AR!Write(e.a, e.b)
Obs == LET e == P  v == AR!View IN
       /\ (e.refused = 1) = refused
       /\ e.size = len /\ (e.empty = 1) = (len = 0)
       /\ e.idx = v /\ e.fwd = v /\ e.vec = v /\ e.str = v /\ e.rev = AR!Reversed
       /\ e.at = [i \in 1..(len + e.out) |-> IF i <= len THEN v[i] ELSE -1]
       /\ (len > 0 => e.front = v[1] /\ e.back = v[len]) /\ e.off = off
\* windows on more elements than can be listed, positions in two digits to base 65536: offset, then length
Wide(e) == /\ e.x = <<0, 0>> \o e.n /\ e.s = e.p \o e.np /\ e.t = e.p \o e.k /\ e.y = e.f \o e.nfb /\ e.it = e.n
           /\ UNCHANGED <<mem, off, len, refused>>
Init == mem = <<>> /\ off = -1 /\ len = 0 /\ refused = FALSE /\ l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (New \/ (E.op = "wide" /\ Wide(E)) \/ (E.op \notin {"new", "wide"} /\ Do(E) /\ Obs'))
Spec == Init /\ [][Next]_<<mem, off, len, refused, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
