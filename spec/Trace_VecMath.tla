--------------------------- MODULE Trace_VecMath ---------------------------
EXTENDS VecMath, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
A(e, k) == e.args[k]
\* lengths are recorded squared, means multiplied by the number of terms (truncated to the type for integers)
Right(e) ==
  LET f == e.f  a == A(e, 1)  b == A(e, 2)  c == A(e, 3)  n == Len(e.args) IN
  CASE f = "dot" -> e.r = <<Dot(a, b)>>
    [] f = "cross2" -> e.r = <<Cross2(a, b)>>
    [] f = "cross3" -> e.r = Cross3(a, b)
    [] f = "crossmag" -> e.r = <<IF Len(a) = 1 THEN 0 ELSE IF Len(a) = 2 THEN Cross2(a, b) * Cross2(a, b) ELSE Dot(Cross3(a, b), Cross3(a, b)), 1>>
    [] f = "triple" -> e.r = <<Triple(a, b, c)>>
    [] f = "normal2" -> e.r = Normal2(a, b)
    [] f = "reflect" -> e.r = Reflect(a, b)
    [] f = "mag" -> e.r = <<Dot(a, a), 1>>
    [] f = "delta" -> e.r = <<Dot(Minus(a, b), Minus(a, b)), 1>>
    [] f = "unit" -> e.r = a
    [] f = "min" -> e.r = MinV(a, b)
    [] f = "max" -> e.r = MaxV(a, b)
    [] f = "argmin" -> e.r = <<ArgMin(a)>>
    [] f = "argmax" -> e.r = <<ArgMax(a)>>
    [] f = "avgi" -> e.r = <<Quot(Sum(a), Len(a))>>
    [] f = "avgd" -> e.r = <<Sum(a)>>
    [] f = "avgv" -> e.r = SumVec(e.args)
    [] f = "powers" -> e.r = <<a[1] * a[1], a[1] * a[1] * a[1], Sgn(a[1])>>
    [] f = "mid" -> e.r = Plus(a, b)
    [] f = "tovec" -> e.r = a
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Right(E)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
