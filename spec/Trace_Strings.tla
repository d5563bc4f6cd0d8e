---------------------------- MODULE Trace_Strings ----------------------------
EXTENDS Strings, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Set(q) == {q[i] : i \in 1..Len(q)}
Ok(e) == CASE e.op = "repl" -> e.r = ReplaceAll(e.s, e.f, e.t)
           [] e.op = "split" -> e.r = Split(e.s, Set(e.d))
           [] e.op = "path" -> /\ e.base = Base(e.s) /\ e.ext = Ext(e.s) /\ e.rem = Stem(e.s)
                               /\ e.sp1 = Stem(e.s) /\ e.sp2 = Ext(e.s)
           [] e.op = "num" -> /\ e.digits = Len(Text(e.hi, e.lo)) /\ e.text = Text(e.hi, e.lo)
                              /\ e.padded = Pad(Text(e.hi, e.lo), e.p)
           [] e.op = "six" -> e.padded = Pad(Text(e.hi, e.lo), 6)
           [] e.op = "int" -> e.r = Signed(e.n)
           [] e.op = "half" -> e.r = Halves(e.n)
           [] e.op = "same" -> e.r = e.s                      \* to_string(string), to_wstring, trivial_string
           [] e.op = "const" -> /\ e.size = Len(e.s) /\ e.r = e.s /\ \A i \in 1..Len(e.at) : e.at[i] = (IF i <= Len(e.s) THEN e.s[i] ELSE -1)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Ok(E)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
