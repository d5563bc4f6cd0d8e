------------------------------ MODULE Geometry ------------------------------
(* Areas, normals, volumes and centroids of figures with integer coordinates,
   scaled so that everything is an integer.  Polygons are sequences of points,
   bodies sequences of faces (polygons).  *)
EXTENDS Integers, Sequences
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VScale(k, a) == [i \in 1..Len(a) |-> k * a[i]]
RECURSIVE VSumTo(_, _)
VSumTo(f, n) == IF n = 1 THEN f[1] ELSE VAdd(f[n], VSumTo(f, n - 1))
VSum(P) == VSumTo(P, Len(P))
Dot(a, b) == SumTo([i \in 1..Len(a) |-> a[i] * b[i]], Len(a))
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Triple(a, b, c) == Dot(a, Cross(b, c))
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Next1(P, i) == P[IF i = Len(P) THEN 1 ELSE i + 1]
\* --- plane polygons
A2(P) == SumTo([i \in 1..Len(P) |-> Cross2(P[i], Next1(P, i))], Len(P))                        \* twice the signed area
C3A(P) == VSumTo([i \in 1..Len(P) |-> VScale(Cross2(P[i], Next1(P, i)), VAdd(P[i], Next1(P, i)))], Len(P))   \* 3 A2 * centroid
\* --- polygons in space
N2(P) == VSumTo([i \in 1..Len(P) |-> Cross(VSub(P[i], P[1]), VSub(Next1(P, i), P[1]))], Len(P)) \* twice the area vector
Planar(P) == \A i \in 1..Len(P) : Dot(VSub(P[i], P[1]), N2(P)) = 0
\* all corners turn the same way (and the polygon winds once, for the polygons used)
Convex(P) == \A i \in 1..Len(P) : LET b == Next1(P, i)  j == IF i = Len(P) THEN 1 ELSE i + 1  c == Next1(P, j)
                                  IN Dot(Cross(VSub(b, P[i]), VSub(c, b)), N2(P)) >= 0
C3N(P) == LET n == N2(P) IN                                                                    \* 3 (N2.N2) * centroid of a planar polygon
          VSumTo([i \in 1..(Len(P) - 2) |-> VScale(Dot(Cross(VSub(P[i + 1], P[1]), VSub(P[i + 2], P[1])), n), VAdd(P[1], VAdd(P[i + 1], P[i + 2])))], Len(P) - 2)
\* --- bodies: every face is the fan of triangles around the mean of its vertices; L is a common multiple of the numbers of vertices
FaceV(f, L) == LET s == VSum(f) IN (L \div Len(f)) * SumTo([i \in 1..Len(f) |-> Triple(f[i], Next1(f, i), s)], Len(f))
V6(B, L) == SumTo([k \in 1..Len(B) |-> FaceV(B[k], L)], Len(B))                                \* 6 L * signed volume
FaceM(f, L) == LET s == VSum(f)  n == Len(f)  q == L \div Len(f) IN
               VScale(q * q, VSumTo([i \in 1..n |-> VScale(Triple(f[i], Next1(f, i), s), VAdd(VScale(n, VAdd(f[i], Next1(f, i))), s))], n))
M24(B, L) == VSumTo([k \in 1..Len(B) |-> FaceM(B[k], L)], Len(B))                              \* 4 L V6 * centroid
Mid(B, L) == VSumTo([k \in 1..Len(B) |-> VScale(L \div Len(B[k]), VSum(B[k]))], Len(B))         \* (L * number of faces) * mean of the face midpoints
Edges(B) == UNION {{<<B[k][i], Next1(B[k], i)>> : i \in 1..Len(B[k])} : k \in 1..Len(B)}
Closed(B) == /\ SumTo([k \in 1..Len(B) |-> Len(B[k])], Len(B)) = 2 * (LET U == {{e[1], e[2]} : e \in Edges(B)} IN IF U = {} THEN 0 ELSE LET RECURSIVE C(_) C(S) == IF S = {} THEN 0 ELSE 1 + C(S \ {CHOOSE x \in S : TRUE}) IN C(U))
             /\ \A e \in Edges(B) : <<e[2], e[1]>> \in Edges(B)
\* hexahedron: bottom 1-4, top 5-8; the faces look inwards
HexFaces(p) == <<<<p[1], p[2], p[3], p[4]>>, <<p[5], p[8], p[7], p[6]>>, <<p[1], p[5], p[6], p[2]>>, <<p[2], p[6], p[7], p[3]>>, <<p[3], p[7], p[8], p[4]>>, <<p[4], p[8], p[5], p[1]>>>>
TetFaces(p) == <<<<p[1], p[2], p[3]>>, <<p[1], p[4], p[2]>>, <<p[2], p[4], p[3]>>, <<p[3], p[4], p[1]>>>>
Tet6(p) == Triple(VSub(p[2], p[1]), VSub(p[3], p[1]), VSub(p[4], p[1]))
\* Grandy's three determinants, 12 times the volume of the hexahedron
Hex12(p) == LET d(i, j) == VSub(p[i], p[j]) IN
            Triple(VAdd(d(7, 2), d(8, 1)), d(7, 4), d(3, 1)) + Triple(d(8, 1), VAdd(d(7, 4), d(6, 1)), d(7, 5)) + Triple(d(7, 2), d(6, 1), VAdd(d(7, 5), d(3, 1)))
Rotate(P, k) == [i \in 1..Len(P) |-> P[((i - 1 + k) % Len(P)) + 1]]
Reverse(P) == [i \in 1..Len(P) |-> P[Len(P) + 1 - i]]
Move(P, t) == [i \in 1..Len(P) |-> VAdd(P[i], t)]
MoveB(B, t) == [k \in 1..Len(B) |-> Move(B[k], t)]
=============================================================================
