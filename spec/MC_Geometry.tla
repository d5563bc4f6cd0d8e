---------------------------- MODULE MC_Geometry ----------------------------
(* geometric invariances of the definitions, for all small plane polygons and distorted bodies *)
EXTENDS Geometry
CONSTANTS D,     \* plane polygons with coordinates 0..D
          W      \* amplitude of the distortion of the corners of a body
VARIABLES P, Q
G == 0..D
Pt == {<<x, y>> : x \in G, y \in G}
Cube(k) == <<<<0, 0, 0>>, <<k, 0, 0>>, <<k, k, 0>>, <<0, k, 0>>, <<0, 0, k>>, <<k, 0, k>>, <<k, k, k>>, <<0, k, k>>>>
Wob == {<<x, y, z>> : x \in 0 - W .. W, y \in 0 - W .. W, z \in 0 - W .. W}
\* kinds: a quadrilateral of the plane (P), or a hexahedron with two distorted corners (P)
Init == \/ Q = "plane" /\ P \in {<<a>> : a \in Pt}
        \/ Q = "solid" /\ P \in {[Cube(2) EXCEPT ![i] = VAdd(@, w)] : i \in 1..8, w \in Wob}
Next == \/ Q = "plane" /\ Q' = "quad" /\ \E b \in Pt, c \in Pt, d \in Pt : P' = <<P[1], b, c, d>>
        \/ Q = "solid" /\ Q' = "hex" /\ \E i \in {1, 3, 6}, w \in Wob : P' = [P EXCEPT ![i] = VAdd(@, w)]
Up(p) == [i \in 1..Len(p) |-> <<p[i][1] + 2 * p[i][2], p[i][2], 3 - p[i][1]>>]       \* embedding in a slanted plane of space
U1 == <<1, 0, 0 - 1>>  U2 == <<2, 1, 0>>                                             \* ... spanned by these
T2 == <<3, 0 - 2>>  T3 == <<1, 2, 0 - 3>>
PlaneLaws == Q = "quad" =>
  /\ A2(Move(P, T2)) = A2(P) /\ A2(Rotate(P, 1)) = A2(P) /\ A2(Reverse(P)) = 0 - A2(P)
  /\ A2(P) = A2(<<P[1], P[2], P[3]>>) + A2(<<P[1], P[3], P[4]>>) /\ A2(P) = A2(<<P[1], P[2], P[4]>>) + A2(<<P[2], P[3], P[4]>>)
  /\ C3A(Move(P, T2)) = VAdd(C3A(P), VScale(3 * A2(P), T2))
  /\ C3A(P) = VAdd(C3A(<<P[1], P[2], P[3]>>), C3A(<<P[1], P[3], P[4]>>))
  /\ N2(Up(P)) = VScale(A2(P), Cross(U1, U2)) /\ Planar(Up(P)) /\ N2(Reverse(Up(P))) = VScale(0 - 1, N2(Up(P))) /\ N2(Rotate(Up(P), 2)) = N2(Up(P))
  /\ (A2(P) # 0 => \A k \in 1..3 : \* the centroid in space is the image of the one in the plane
        LET n == N2(Up(P))  c == C3A(P)  o == <<0, 0, 3>> IN
        C3N(Up(P))[k] * A2(P) = Dot(n, n) * (3 * A2(P) * o[k] + c[1] * U1[k] + c[2] * U2[k]))
SolidLaws == Q = "hex" =>
  LET B == HexFaces(P)  v == V6(B, 4) IN
  /\ ((\A i \in 1..8, j \in 1..8 : i = j \/ P[i] # P[j]) => Closed(B)) /\ 2 * Hex12(P) = 0 - v
  /\ V6(MoveB(B, T3), 4) = v /\ M24(MoveB(B, T3), 4) = VAdd(M24(B, 4), VScale(16 * v, T3))
  /\ V6([k \in 1..6 |-> B[7 - k]], 4) = v /\ V6([k \in 1..6 |-> Rotate(B[k], k % 4)], 4) = v
  /\ V6([k \in 1..6 |-> Reverse(B[k])], 4) = 0 - v
  /\ V6(TetFaces(P), 3) = 0 - 3 * Tet6(P)
  /\ (Tet6(P) # 0 => M24(TetFaces(P), 3) = VScale(3 * V6(TetFaces(P), 3), VSum(<<P[1], P[2], P[3], P[4]>>)))
  /\ (Q = "hex" /\ P = Cube(2) => v = 0 - 24 * 8 /\ M24(B, 4) = VScale(16 * v, <<1, 1, 1>>))
=============================================================================
