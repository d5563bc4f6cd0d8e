--------------------------- MODULE Trace_Elements ---------------------------
EXTENDS Elements, Json, IOUtils, TLC
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == TraceLog[l]
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Near(x, y, t) == AbsI(x - y) <= t
\* the node (as positions in the 1D node list) that the element itself reports for entry k
At(e, k) == [i \in 1..Len(e.x) |-> CHOOSE j \in 1..(Len(e.nodes) + 1) : j = Len(e.nodes) + 1 \/ e.nodes[j] = e.ln[k][i]]
Den(e, ix) == ProdTo([i \in 1..Len(ix) |-> LagDen(e.nodes, ix[i])], Len(ix))
LagBasis(e, ix) == ProdTo([i \in 1..Len(ix) |-> LagNum(e.nodes, ix[i], e.x[i])], Len(ix))
LagPart(e, ix, m) == ProdTo([i \in 1..Len(ix) |-> IF i = m THEN LagDer(e.nodes, ix[i], e.x[i]) ELSE LagNum(e.nodes, ix[i], e.x[i])], Len(ix))
Total(e) == Pow(Len(e.nodes), Len(e.x))
Right(e) ==
  CASE e.f = "basis" -> e.k = Scale(e.el, e.D) /\ e.r = Basis(e.el, e.x, e.D)
    [] e.f = "partial" -> /\ e.k * e.D = Scale(e.el, e.D)
                          /\ Len(e.r) = Len(Nodes(e.el))
                          /\ \A k \in DOMAIN e.r : 12 * e.r[k] = Diff12(e.el, Nodes(e.el)[k], e.x, e.D, e.m)
    [] e.f = "pos" -> e.k = Scale(e.el, e.D) /\ e.r = Position(e.el, e.x, e.D, e.v)
    [] e.f = "line" -> /\ \A i \in DOMAIN e.nodes : e.d[i] = LagDen(e.nodes, i) /\ e.r[i] = LagNum(e.nodes, i, e.x) /\ e.p[i] = LagDer(e.nodes, i, e.x)
                       /\ Len(e.r) = Len(e.nodes) /\ Len(e.p) = Len(e.nodes)
    [] e.f = "lag" -> /\ Len(e.ln) = Total(e) /\ \A k, q \in DOMAIN e.ln : e.ln[k] = e.ln[q] => k = q
                      /\ \A k \in DOMAIN e.ln : \E ix \in {At(e, k)} :
                           /\ \A i \in DOMAIN ix : ix[i] <= Len(e.nodes)
                           /\ e.d[k] = Den(e, ix) /\ e.r[k] = LagBasis(e, ix)
                           /\ \A m \in DOMAIN e.x : e.p[k][m] = LagPart(e, ix, m)
    [] e.f = "corners" -> LET n == Len(e.nodes) IN e.kept = 1 /\                \* xi runs fastest
                          \A c \in DOMAIN e.r : e.r[c] = [i \in 1..Len(e.r[c]) |-> IF ((c - 1) \div Pow(2, i - 1)) % 2 = 0 THEN e.nodes[1] ELSE e.nodes[n]]
    [] e.f = "sum" -> e.r = [i \in 1..Len(e.v[1]) |-> SumTo([k \in DOMAIN e.v |-> e.v[k][i] * e.b[k]], Len(e.v))]
    \* nodes of Chebyshev spacing, in units of 1e-9
    [] e.f = "cheb" -> LET n == e.order + 1  G == 1000000000 IN
                       /\ Len(e.r) = n /\ e.r[1] = 0 - G /\ e.r[n] = G
                       /\ \A i \in 1..(n - 1) : e.r[i] < e.r[i + 1]
                       /\ \A i \in 1..n : Near(e.r[i], 0 - e.r[n + 1 - i], 2)
    \* on irrational nodes: a Kronecker delta, sums and the identity map, in units of 1e-9
    [] e.f = "delta" -> \A k \in DOMAIN e.r : Near(e.r[k], IF k = e.m THEN 1000000000 ELSE 0, 10)
    [] e.f = "sums" -> /\ Near(e.r, 1000000000, 20)
                       /\ \A i \in DOMAIN e.p : Near(e.p[i], 0, 1000)
                       /\ \A i \in DOMAIN e.x : Near(e.g[i], e.x[i], 20)
                       /\ \A i, j \in DOMAIN e.x : Near(e.j[i][j], IF i = j THEN 1000000000 ELSE 0, 1000)
Init == l = 1
Next == l <= Len(TraceLog) /\ l' = l + 1 /\ Right(E)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
