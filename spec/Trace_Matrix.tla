---------------------------- MODULE Trace_Matrix ----------------------------
EXTENDS Matrix, Json, IOUtils, TLC
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == TraceLog[l]
A(e, k) == e.args[k]
N(e) == Rows(A(e, 1))
\* inverse and solution are recorded times the determinant, exponentials times a known factor
Right(e) ==
  LET f == e.f  a == A(e, 1)  b == A(e, 2)  c == A(e, 3)  d == A(e, 4)  g == A(e, 5) IN
  CASE f = "mul" -> e.r = Mul(a, b)
    [] f = "muladd" -> e.r = Add(c, Mul(a, b))
    [] f = "apply" -> e.r = Apply(a, b)
    [] f = "axpy" -> e.r = VAdd(c, Apply(a, b))
    [] f = "gemv" -> e.r = VAdd(VScale(a, Apply(b, c)), VScale(d, g))
    [] f = "outer" -> e.r = Outer(a, b)
    [] f = "outeradd" -> e.r = Add(c, ScaleM(d, Outer(a, b)))
    [] f = "transpose" -> e.r = Transpose(a)
    [] f = "strike" -> e.r = Strike(a, b + 1, c + 1)
    [] f = "det" -> e.r = Det(a)
    [] f = "inverse" -> Mul(a, e.r) = ScaleM(Det(a), Ident(N(e))) /\ Mul(e.r, a) = ScaleM(Det(a), Ident(N(e)))
    [] f = "solve" -> Apply(a, e.r) = VScale(Det(a), b)
    [] f = "rotation" -> e.r = <<<<a, 0 - b>>, <<b, a>>>>
    [] f = "reflection" -> e.r = Add(ScaleM(A(e, 2), Ident(Len(a))), ScaleM(0 - 2, Outer(a, a)))
    [] f = "projection" -> e.r = Add(ScaleM(A(e, 2), Ident(Len(a))), ScaleM(0 - 1, Outer(a, a)))
    [] f = "ident" -> e.r = Ident(a)
    [] f = "trace" -> e.r = Trace(a)
    [] f = "infnorm" -> e.r = MaxRow(a)
    [] f = "onenorm" -> e.r = MaxRow(Transpose(a))
    [] f = "frob" -> e.r = <<DDot(a, a), 1>>
    [] f = "ddot" -> e.r = DDot(a, b)
    [] f = "expnil" -> e.r = ExpSum(a, N(e))                       \* a nilpotent; recorded times N!
    [] f = "expdiag" -> Mul(e.r, a) = Mul(a, Diag(b))               \* exp(P ln(D) P^-1) P = P D, with unimodular P
    [] f = "exprot" -> e.r = <<<<a, 0 - b>>, <<b, a>>>>             \* exp of the skew matrix of a quarter-turn multiple
    [] f = "expinv" -> e.r = Ident(N(e))                            \* exp(A) exp(-A)
Init == l = 1
Next == l <= Len(TraceLog) /\ l' = l + 1 /\ Right(E)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
