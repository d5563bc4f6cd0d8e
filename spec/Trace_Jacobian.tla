--------------------------- MODULE Trace_Jacobian ---------------------------
EXTENDS Matrix, Json, IOUtils, TLC
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == TraceLog[l]
\* g: partials (one row per node), v: vertices; row j of the Jacobian belongs to the j-th partial
Right(e) ==
  CASE e.f = "jacobian" -> e.J = Mul(Transpose(e.g), e.v) /\ e.det = Det(e.J)
    \* recorded times the determinant
    [] e.f = "inverse" -> LET n == Rows(e.J) IN e.det = Det(e.J) /\ Mul(e.J, e.r) = ScaleM(e.det, Ident(n)) /\ Mul(e.r, e.J) = ScaleM(e.det, Ident(n))
    \* vertices are images of the reference nodes under A x + b
    [] e.f = "affine" -> e.J = Transpose(e.A) /\ e.det = Det(e.A)
Init == l = 1
Next == l <= Len(TraceLog) /\ l' = l + 1 /\ Right(E)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
