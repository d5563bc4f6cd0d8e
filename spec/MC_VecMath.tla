---------------------------- MODULE MC_VecMath ----------------------------
EXTENDS VecMath
CONSTANT D
VARIABLES a, b, c
S == 0 - D .. D
V3 == {<<x, y, z>> : x \in S, y \in S, z \in S}
Init == a \in V3 /\ b \in V3 /\ c \in {<<1, 0, 2>>, <<0 - 1, 2, 1>>, <<0, 1, 0>>}
Next == UNCHANGED <<a, b, c>>
Two(v) == <<v[1], v[2]>>
Laws == /\ Dot(a, b) = Dot(b, a)
        /\ Cross3(a, b) = Scale(0 - 1, Cross3(b, a)) /\ Dot(Cross3(a, b), a) = 0 /\ Dot(Cross3(a, b), b) = 0
        /\ Dot(Cross3(a, b), Cross3(a, b)) = Dot(a, a) * Dot(b, b) - Dot(a, b) * Dot(a, b)
        /\ Triple(a, b, c) = Triple(b, c, a) /\ Triple(a, b, c) = 0 - Triple(b, a, c) /\ Triple(a, a, b) = 0
        /\ Cross2(Two(a), Two(b)) = 0 - Cross2(Two(b), Two(a))
        /\ Dot(Normal2(Two(a), Two(b)), Minus(Two(b), Two(a))) = 0
        /\ (Dot(c, c) = 1 => Reflect(Reflect(a, c), c) = a /\ Dot(Reflect(a, c), Reflect(a, c)) = Dot(a, a))
        /\ Plus(MinV(a, b), MaxV(a, b)) = Plus(a, b)
        /\ a[ArgMin(a) + 1] = MinI(a[1], MinI(a[2], a[3])) /\ a[ArgMax(a) + 1] = MaxI(a[1], MaxI(a[2], a[3]))
        /\ SumVec(<<a, b, c>>) = Plus(a, Plus(b, c))
=============================================================================
