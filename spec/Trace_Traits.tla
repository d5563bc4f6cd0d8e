----------------------------- MODULE Trace_Traits -----------------------------
EXTENDS Traits, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
B(x) == IF x THEN 1 ELSE 0
Set(q) == {q[i] : i \in 1..Len(q)}
Ok(e) == CASE e.op = "members" -> /\ e.cont = B(IsContainer(Set(e.f))) /\ e.min = B(IsMinimal(Set(e.f)))
                                  /\ e.iter = B(IsIterator(Set(e.f))) /\ e.out = B(IsWriteable(Set(e.f)))
           [] e.op = "callable" -> e.r = B(IsCallable(Set(e.s)))
           [] e.op = "call" -> e.r = B(HasCall(Set(e.s), e.a))
           [] e.op = "index" -> e.r = B(HasSubscript(Set(e.s), e.a))
           [] e.op = "same" -> e.r = B(AreType(e.t, e.ts))
           [] e.op = "integral" -> e.r = B(AreIntegral(e.ts))
           \* special_decay: plain values lose their decoration, a reference wrapper becomes a reference to what it wraps
           [] e.op = "decay" -> e.r = <<e.t[1], IF e.t[2] = "wrap" THEN "&" ELSE IF e.t[2] = "wrapconst" THEN "const&" ELSE "">>
           [] e.op = "product" -> e.r = Product(e.s)
           [] e.op = "filled" -> e.r = [k \in 1..e.n |-> e.v]
           \* ties: the members refer to the very objects; only the first of a ctie can be changed
           [] e.op = "tie" -> e.same = 1 /\ e.seen = e.s /\ e.firstconst = 0 /\ e.restconst = 1
           [] e.op = "counter" -> e.holds = 1 /\ e.signed = e.small
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Ok(E)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
