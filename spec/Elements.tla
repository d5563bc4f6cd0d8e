------------------------------ MODULE Elements ------------------------------
(* Shape functions of the reference elements at rational points, in integers.
   A point is a tuple a of integers standing for a/D; nodes are in thirds.
   Every value is recorded times Scale(el, D), derivatives times Scale / D. *)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_, _), ProdTo(_, _), Pow(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProdTo(f, n - 1)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
m3 == 0 - 3
m1 == 0 - 1
Q4 == <<<<m3, m3>>, <<3, m3>>, <<3, 3>>, <<m3, 3>>>>
H8 == <<<<m3, m3, m3>>, <<3, m3, m3>>, <<3, m3, 3>>, <<m3, m3, 3>>, <<m3, 3, m3>>, <<3, 3, m3>>, <<3, 3, 3>>, <<m3, 3, 3>>>>
Nodes(el) ==
  CASE el = "quad4" -> Q4
    [] el = "quad8" -> Q4 \o <<<<0, m3>>, <<3, 0>>, <<0, 3>>, <<m3, 0>>>>
    [] el = "quad12" -> Q4 \o <<<<m1, m3>>, <<1, m3>>, <<1, 3>>, <<m1, 3>>, <<m3, m1>>, <<3, m1>>, <<3, 1>>, <<m3, 1>>>>
    [] el = "hex8" -> H8
    [] el = "hex20" -> H8 \o <<<<0, m3, m3>>, <<3, m3, 0>>, <<0, m3, 3>>, <<m3, m3, 0>>, <<0, 3, m3>>, <<3, 3, 0>>, <<0, 3, 3>>, <<m3, 3, 0>>,
                               <<m3, 0, m3>>, <<3, 0, m3>>, <<3, 0, 3>>, <<m3, 0, 3>>>>
    [] el = "hex32" -> H8 \o <<<<m3, m3, m1>>, <<3, m3, m1>>, <<3, m3, 1>>, <<m3, m3, 1>>, <<m3, 3, m1>>, <<3, 3, m1>>, <<3, 3, 1>>, <<m3, 3, 1>>,
                               <<m1, m3, m3>>, <<1, m3, m3>>, <<1, m3, 3>>, <<m1, m3, 3>>, <<m1, 3, m3>>, <<1, 3, m3>>, <<1, 3, 3>>, <<m1, 3, 3>>,
                               <<m3, m1, m3>>, <<3, m1, m3>>, <<3, m1, 3>>, <<m3, m1, 3>>, <<m3, 1, m3>>, <<3, 1, m3>>, <<3, 1, 3>>, <<m3, 1, 3>>>>
    [] el = "tess16" -> [k \in 1..16 |-> H8[IF k <= 8 THEN k ELSE k - 8] \o <<IF k <= 8 THEN m3 ELSE 3>>]
Elems == {"quad4", "quad8", "quad12", "hex8", "hex20", "hex32", "tess16"}
Degree(el) == CASE el \in {"quad4", "hex8", "tess16"} -> 1 [] el \in {"quad8", "hex20"} -> 2 [] OTHER -> 3
Dim(el) == CASE el \in {"quad4", "quad8", "quad12"} -> 2 [] el = "tess16" -> 4 [] OTHER -> 3
Scale(el, D) == LET d == Dim(el) IN CASE Degree(el) = 1 -> Pow(2, d) * Pow(D, d) [] Degree(el) = 2 -> Pow(2, d) * Pow(D, d + 1) [] OTHER -> 8 * Pow(2, d) * Pow(D, d + 2)
\* factor D + a s of a direction in which the node lies on the boundary
Lin(a, c, D) == IF c > 0 THEN D + a ELSE D - a
N(el, nd, a, D) ==
  LET d == Dim(el)  k == Degree(el)
      mids == {i \in 1..d : nd[i] \in {0, 1, m1}}
      corner == mids = {}
      m == CHOOSE i \in mids : TRUE
      lin == ProdTo([i \in 1..d |-> IF i \in mids THEN 1 ELSE Lin(a[i], nd[i], D)], d)
      sum1 == SumTo([i \in 1..d |-> IF nd[i] > 0 THEN a[i] ELSE 0 - a[i]], d)
      sum2 == SumTo([i \in 1..d |-> a[i] * a[i]], d)
  IN CASE k = 1 -> lin
       [] k = 2 /\ corner -> lin * (sum1 - (d - 1) * D)
       [] k = 2 /\ ~corner -> 2 * (D * D - a[m] * a[m]) * lin
       [] k = 3 /\ corner -> lin * (9 * sum2 - (9 * d - 8) * D * D)
       [] k = 3 /\ ~corner -> 9 * (D * D - a[m] * a[m]) * (D + 3 * a[m] * nd[m]) * lin
Shift(a, i, h) == [a EXCEPT ![i] = @ + h]
\* 12 times the derivative in direction i (times Scale / D): five-point rule, exact up to degree four
Diff12(el, nd, a, D, i) == N(el, nd, Shift(a, i, 0 - 2), D) - 8 * N(el, nd, Shift(a, i, m1), D) + 8 * N(el, nd, Shift(a, i, 1), D) - N(el, nd, Shift(a, i, 2), D)
Fifth(el, nd, a, D, i) == N(el, nd, Shift(a, i, 3), D) - 5 * N(el, nd, Shift(a, i, 2), D) + 10 * N(el, nd, Shift(a, i, 1), D) - 10 * N(el, nd, a, D)
                          + 5 * N(el, nd, Shift(a, i, m1), D) - N(el, nd, Shift(a, i, 0 - 2), D)
Basis(el, a, D) == LET ns == Nodes(el) IN [k \in 1..Len(ns) |-> N(el, ns[k], a, D)]
Position(el, a, D, v) == LET b == Basis(el, a, D) IN [i \in 1..Dim(el) |-> SumTo([k \in 1..Len(b) |-> v[k][i] * b[k]], Len(b))]
\* Lagrange functions on arbitrary distinct nodes n of one direction (integers standing for n/S, S cancels)
LagNum(n, i, x) == ProdTo([j \in 1..Len(n) |-> IF j = i THEN 1 ELSE x - n[j]], Len(n))
LagDen(n, i) == ProdTo([j \in 1..Len(n) |-> IF j = i THEN 1 ELSE n[i] - n[j]], Len(n))
LagDer(n, i, x) == SumTo([j \in 1..Len(n) |-> IF j = i THEN 0 ELSE ProdTo([q \in 1..Len(n) |-> IF q \in {i, j} THEN 1 ELSE x - n[q]], Len(n))], Len(n))
=============================================================================
