------------------------------ MODULE MC_Body ------------------------------
EXTENDS Body, TLC, Json
CONSTANTS Bodies, Rots
VARIABLES which, op
Tet == TetFaces(<<<<0, 0, 0>>, <<3, 1, 0>>, <<1, 2, 0>>, <<1, 1, 4>>>>)
\* a frustum, a skew pyramid, a hexahedron with a warped face
Frust == HexFaces(<<<<0, 0, 0>>, <<4, 0, 0>>, <<4, 4, 0>>, <<0, 4, 0>>, <<1, 1, 3>>, <<3, 1, 3>>, <<3, 3, 3>>, <<1, 3, 3>>>>)
Warp == HexFaces(<<<<0, 0, 0>>, <<3, 0, 0>>, <<3, 3, 0>>, <<0, 3, 1>>, <<0, 0, 3>>, <<4, 0, 3>>, <<3, 3, 3>>, <<0, 2, 3>>>>)
Pyr == LET a == <<0, 0, 0>> b == <<3, 0, 0>> c == <<4, 3, 0>> d == <<0, 3, 0>> e == <<1, 2, 3>> IN <<<<a, d, c, b>>, <<a, b, e>>, <<b, c, e>>, <<c, d, e>>, <<d, a, e>>>>
All == <<Tet, Pyr, Frust, Warp>>
V == <<which, body>>
L == 12
Init == body = <<>> /\ which = 0 /\ op = <<>>
Flat(f) == <<"insert", Len(f)>> \o [i \in 1..(3 * Len(f)) |-> f[((i - 1) \div 3) + 1][((i - 1) % 3) + 1]]
Used == {k \in 1..Len(All[which]) : \E j \in 1..Len(body) : \E r \in Rots : body[j] = Rotate(All[which][k], r)}
Put(w, k, r) == LET f == Rotate(All[w][k], r) IN Insert(f) /\ op' = Flat(f) /\ which' = w
Next == \/ which = 0 /\ \E w \in Bodies, r \in Rots : \E k \in 1..Len(All[w]) : Put(w, k, r)
        \/ which # 0 /\ \E k \in (1..Len(All[which])) \ Used, r \in Rots : Put(which, k, r)
Spec == Init /\ [][Next]_<<body, which, op>>
EmitTransition == PrintT("T " \o ToJson(<<<<which, body>>, op', <<which', body'>>>>))
Complete == which # 0 /\ Len(body) = Len(All[which])
\* volume and centroid do not depend on the order of the faces or on where each starts
OrderFree == Complete => /\ V6(body, L) = V6(All[which], L) /\ M24(body, L) = M24(All[which], L) /\ Mid(body, L) = Mid(All[which], L) /\ Closed(body)
Open == which # 0 /\ ~Complete => ~Closed(body)
Tetrahedron == Complete /\ which = 1 => V6(body, L) = 0 - L * Tet6(<<<<0, 0, 0>>, <<3, 1, 0>>, <<1, 2, 0>>, <<1, 1, 4>>>>)
=============================================================================
