--------------------------- MODULE MC_Quadrature ---------------------------
EXTENDS Quadrature, TLC
CONSTANTS P, Dm, Max
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
VARIABLE w            \* weights of the line rule times a common factor
vars == <<p, d, seen, w>>
Init == /\ \E n \in 1..P, k \in 1..Dm : Pow(n, k) <= Max /\ Start(n, k)
        /\ w \in [1..p -> 1..2]
Next == \E ix \in All(p, d) : Point(ix) /\ UNCHANGED w
Spec == Init /\ [][Next]_vars
RECURSIVE SumSet(_), ProdF(_, _)
ProdF(ix, k) == IF k = 0 THEN 1 ELSE w[ix[k]] * ProdF(ix, k - 1)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN ProdF(x, d) + SumSet(S \ {x})
RECURSIVE SumW(_)
SumW(k) == IF k = 0 THEN 0 ELSE w[k] + SumW(k - 1)
\* complete exactly when it has p^d points, and then the total weight is the measure of the box
Count == (Cardinality(seen) = Pow(p, d)) <=> Complete
Measure == Complete => SumSet(seen) = Pow(SumW(p), d)
Partial == ~Complete => SumSet(seen) < Pow(SumW(p), d)
=============================================================================
