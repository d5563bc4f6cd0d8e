--------------------------- MODULE Trace_Geometry ---------------------------
EXTENDS Integers, Sequences, Json, IOUtils, TLC
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES body, l
B == INSTANCE Body
E == TraceLog[l]
\* e.p: the points; e.r: the result times e.k
Right(e) ==
  LET p == e.p  f == e.f IN
  CASE f = "area2" -> e.k = 2 /\ e.r = <<B!AbsI(B!A2(p))>>
    [] f = "normal2" -> e.k = 2 /\ e.r = <<0, B!A2(p)>>
    [] f = "centroid2" -> e.k = 3 * B!A2(p) /\ e.r = B!C3A(p)
    [] f = "mid" -> e.k = Len(p) /\ e.r = B!VSum(p)
    [] f = "edge2" -> e.r = <<p[1][2] - p[2][2], p[2][1] - p[1][1]>>
    [] f = "edge3" -> e.r = B!Cross(p[1], p[2])
    [] f = "area3" -> B!Planar(p) /\ B!Convex(p) /\ e.r = <<B!Dot(B!N2(p), B!N2(p)), 1>>          \* 4 area^2, and area >= 0
    [] f = "normal3" -> e.k = 2 /\ e.r = B!N2(p)
    [] f = "centroid3" -> B!Planar(p) /\ B!Convex(p) /\ e.k = 3 * B!Dot(B!N2(p), B!N2(p)) /\ e.r = B!C3N(p)
    [] f = "same" -> e.r = <<0>>                                                                   \* two forms of one call differ by nothing
    [] f = "tetvol" -> e.k = 6 /\ e.r = <<B!AbsI(B!Tet6(p))>>
    [] f = "hexvol" -> e.k = 24 /\ e.r = <<B!AbsI(B!V6(B!HexFaces(p), 4))>>
    [] f = "hexcen" -> e.k = 16 * B!V6(B!HexFaces(p), 4) /\ e.r = B!M24(B!HexFaces(p), 4)
    [] f = "bodyvol" -> e.k % 6 = 0 /\ e.r = <<B!AbsI(B!V6(body, e.k \div 6))>>
    [] f = "bodymid" -> e.r = B!Mid(body, e.k \div Len(body))
    [] f = "bodycen" -> LET L == e.p[1][1] IN B!Closed(body) /\ e.k = 4 * L * B!V6(body, L) /\ e.r = B!M24(body, L)
Init == body = <<>> /\ l = 1
Next == /\ l <= Len(TraceLog) /\ l' = l + 1
        /\ CASE E.f = "new" -> body' = <<>>
             [] E.f = "insert" -> B!Insert(E.p)
             [] OTHER -> UNCHANGED body /\ Right(E)
Spec == Init /\ [][Next]_<<body, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
