-------------------------- MODULE Trace_Quadrature --------------------------
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES p, d, seen, l
Q == INSTANCE Quadrature
E == TraceLog[l]
G == 1000000000
H == 100000000
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
\* a moment m is recorded as <<hi, lo>>, m = (hi * 1e8 + lo) * 1e-15; (k+1) m must be 2 or 0 up to 4e-14
Exact(m, k) == LET t == (k + 1) * m[2]  hi == (k + 1) * m[1] + (t \div H) - Q!Moment(k) * 10000000  rem == t % H IN
               hi \in {0 - 1, 0} /\ AbsI(hi * H + rem) <= 40
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Line(e) == LET n == e.p  deg == IF e.rule = "gauss" THEN Q!GaussDegree(n) ELSE Q!LobattoDegree(n) IN
           /\ Len(e.x) = n /\ Len(e.w) = n
           /\ \A i \in 1..n : e.x[i] >= 0 - G /\ e.x[i] <= G /\ e.w[i] > 0
           /\ (e.rule = "gauss" => \A i \in 1..n : AbsI(e.x[i]) < G)
           /\ (e.rule = "lobatto" /\ n > 1 => {e.x[i] : i \in 1..n} \cap {0 - G, G} = {0 - G, G})
           /\ Cardinality({e.x[i] : i \in 1..n}) = n
           /\ AbsI((Sum(e.w, n) - G) - G) <= n
           /\ Len(e.mom) > deg /\ \A k \in 0..deg : Exact(e.mom[k + 1], k)
Init == p = 0 /\ d = 0 /\ seen = {} /\ l = 1
Next == /\ l <= Len(TraceLog) /\ l' = l + 1
        /\ CASE E.f = "line" -> Line(E) /\ UNCHANGED <<p, d, seen>>
             [] E.f = "new" -> p' = E.p /\ d' = E.d /\ seen' = {}
             [] E.f = "point" -> Q!Point(E.ix) /\ E.tot = 1
             [] E.f = "end" -> Q!Complete /\ UNCHANGED <<p, d, seen>>
Spec == Init /\ [][Next]_<<p, d, seen, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
