---------------------------- MODULE MC_Elements ----------------------------
(* The definitions are shape functions: all laws on a grid fine enough to
   determine polynomials of these degrees. *)
EXTENDS Elements, TLC, FiniteSets
CONSTANTS D, Lo, Hi
VARIABLES el, a, ns
vars == <<el, a, ns>>
Low == 0 - Lo
Init == el \in Elems \cup {"lag"} /\ a = <<>> /\ ns = <<>>
Tess == {0 - D, 0, 1, D}
Lag == {<<0, 1>>, <<0, 1, 3>>, <<0 - 3, 0 - 1, 0, 2>>, <<0 - 2, 0 - 1, 0, 1, 2>>, <<0 - 3, 0 - 2, 0, 1, 2, 4>>}
Next == /\ a = <<>> /\ UNCHANGED el
        /\ IF el = "lag" THEN \E n \in Lag, x \in (0 - 5)..5 : ns' = n /\ a' = <<x>>
           ELSE /\ ns' = ns
                /\ \E x \in Low..Hi : CASE Dim(el) = 2 -> \E y \in Low..Hi : a' = <<x, y>>
                                        [] Dim(el) = 3 -> \E y, z \in Low..Hi : a' = <<x, y, z>>
                                        [] OTHER -> x \in Tess /\ \E y, z, t \in Tess : a' = <<x, y, z, t>>
Spec == Init /\ [][Next]_vars
Here == el # "lag" /\ a # <<>>
Nd == Nodes(el)
n == Len(Nd)
K == Scale(el, D)
Distinct == \A i, j \in DOMAIN Nd : Nd[i] = Nd[j] => i = j
Delta == (Here /\ D = 3) => \A i, j \in DOMAIN Nd : (Nd[j] = a => N(el, Nd[i], a, D) = IF i = j THEN K ELSE 0)
Unity == Here => SumTo(Basis(el, a, D), n) = K
Affine == Here => \A i \in 1..Dim(el) : SumTo([k \in 1..n |-> Nd[k][i] * N(el, Nd[k], a, D)], n) * D = 3 * a[i] * K
Constant == Here => \A i \in 1..Dim(el) : SumTo([k \in 1..n |-> Diff12(el, Nd[k], a, D, i)], n) = 0
LowDegree == Here => \A i \in 1..Dim(el) : \A k \in 1..n : Fifth(el, Nd[k], a, D, i) = 0
Gradient == Here => \A i, j \in 1..Dim(el) : SumTo([k \in 1..n |-> Nd[k][i] * Diff12(el, Nd[k], a, D, j)], n) * D = IF i = j THEN 36 * K ELSE 0
\* Lagrange
LDelta == (el = "lag" /\ a # <<>>) => \A i, j \in DOMAIN ns : ns[j] = a[1] => LagNum(ns, i, a[1]) = IF i = j THEN LagDen(ns, i) ELSE 0
M == ProdTo([i \in DOMAIN ns |-> LagDen(ns, i)], Len(ns))
RECURSIVE Lcm(_)
Gcd(x, y) == CHOOSE g \in 1..(IF x < y THEN x ELSE y) : x % g = 0 /\ y % g = 0 /\ \A h \in 1..(IF x < y THEN x ELSE y) : (x % h = 0 /\ y % h = 0) => h <= g
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Lcm(s) == IF Len(s) = 1 THEN AbsI(s[1]) ELSE LET r == Lcm(Tail(s)) h == AbsI(s[1]) IN (r \div Gcd(r, h)) * h
L == Lcm([i \in DOMAIN ns |-> LagDen(ns, i)])
W(i) == IF LagDen(ns, i) > 0 THEN L \div LagDen(ns, i) ELSE 0 - (L \div (0 - LagDen(ns, i)))
LUnity == (el = "lag" /\ a # <<>>) => SumTo([i \in DOMAIN ns |-> W(i) * LagNum(ns, i, a[1])], Len(ns)) = L
LAffine == (el = "lag" /\ a # <<>>) => SumTo([i \in DOMAIN ns |-> ns[i] * W(i) * LagNum(ns, i, a[1])], Len(ns)) = a[1] * L
LConst == (el = "lag" /\ a # <<>>) => SumTo([i \in DOMAIN ns |-> W(i) * LagDer(ns, i, a[1])], Len(ns)) = 0
LGrad == (el = "lag" /\ a # <<>>) => SumTo([i \in DOMAIN ns |-> ns[i] * W(i) * LagDer(ns, i, a[1])], Len(ns)) = L
=============================================================================
