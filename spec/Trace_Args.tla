----------------------------- MODULE Trace_Args -----------------------------
EXTENDS Args, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
\* the value read: what was given, the caller's default otherwise
Expected(e, r, o) == IF r.cnt[o] = 0 THEN e.defs[o] ELSE r.vals[o]
Ok(e) == \E r \in {Result(e.reg, e.toks)} :
          /\ e.err = r.err
          /\ (~r.err => /\ e.cnt = r.cnt
                        /\ \A o \in 1..Len(e.reg) : e.reg[o].type # 0 => /\ e.vals[o] = Expected(e, r, o)
                                                                        /\ (r.cnt[o] = 1 => e.plain[o] = r.vals[o])
                                                                        /\ (r.cnt[o] = 0 => e.plain[o] = e.zeros[o])
                        /\ e.other = 0)
          /\ e.shown = Shown(e.reg, e.toks, e.print = 1)
          /\ (e.shown > 0 => e.names = 1)
          /\ e.again = 1                          \* results taken earlier are unchanged
Init == l = 1
Next == l <= Len(Trace) /\ Ok(E) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
