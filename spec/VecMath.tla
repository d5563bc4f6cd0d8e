------------------------------ MODULE VecMath ------------------------------
(* Definitions of the vector functions over the integers. *)
EXTENDS Integers, Sequences
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Quot(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) # (b < 0) THEN 0 - q ELSE q
I(a) == 1..Len(a)
Plus(a, b) == [i \in I(a) |-> a[i] + b[i]]
Minus(a, b) == [i \in I(a) |-> a[i] - b[i]]
Scale(k, a) == [i \in I(a) |-> k * a[i]]
RECURSIVE SumVec(_)
SumVec(vs) == IF Len(vs) = 1 THEN vs[1] ELSE Plus(Head(vs), SumVec(Tail(vs)))
Dot(a, b) == Sum([i \in I(a) |-> a[i] * b[i]])
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Triple(a, b, c) == Dot(a, Cross3(b, c))
Normal2(a, b) == <<a[2] - b[2], b[1] - a[1]>>
Reflect(v, n) == Minus(v, Scale(2 * Dot(v, n), n))
MinI(x, y) == IF x < y THEN x ELSE y
MaxI(x, y) == IF x > y THEN x ELSE y
MinV(a, b) == [i \in I(a) |-> MinI(a[i], b[i])]
MaxV(a, b) == [i \in I(a) |-> MaxI(a[i], b[i])]
\* position (from 0) of the first smallest / largest element
ArgMin(a) == CHOOSE k \in 0..(Len(a) - 1) : (\A i \in I(a) : a[k + 1] <= a[i]) /\ (\A i \in 1..k : a[i] > a[k + 1])
ArgMax(a) == CHOOSE k \in 0..(Len(a) - 1) : (\A i \in I(a) : a[k + 1] >= a[i]) /\ (\A i \in 1..k : a[i] < a[k + 1])
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
=============================================================================
