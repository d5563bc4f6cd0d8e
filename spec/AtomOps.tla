------------------------------- MODULE AtomOps -------------------------------
(* The sequential meaning of the atomic operations.  A value type is given by  *)
(* its width w in bits (0: values so small that it does not matter) and        *)
(* whether it is unsigned.                                                     *)
EXTENDS Integers, Bitwise
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
Norm(x, w, u) == IF w = 0 THEN x
                 ELSE IF u THEN x % (2^w)
                 ELSE ((x + 2^(w-1)) % (2^w)) - 2^(w-1)
\* C++ division and remainder truncate towards zero
TruncDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
TruncMod(a, b) == a - b * TruncDiv(a, b)
LOCAL Raw(x, w) == IF w = 0 THEN x ELSE x % (2^w)      \* bit pattern
Apply(op, v, x, w, u) ==
    CASE op = "add"    -> Norm(v + x, w, u)
      [] op = "sub"    -> Norm(v - x, w, u)
      [] op = "mul"    -> Norm(v * x, w, u)
      [] op = "div"    -> Norm(TruncDiv(v, x), w, u)
      [] op = "mod"    -> Norm(TruncMod(v, x), w, u)
      [] op = "lshift" -> Norm(v * 2^x, w, u)
      [] op = "rshift" -> Norm(v \div 2^x, w, u)
      [] op = "andeq"  -> Norm(Raw(v, w) & Raw(x, w), w, u)
      [] op = "oreq"   -> Norm(Raw(v, w) | Raw(x, w), w, u)
      [] op = "xoreq"  -> Norm(Raw(v, w) ^^ Raw(x, w), w, u)
      [] op = "min"    -> Norm(IF x < v THEN x ELSE v, w, u)
      [] op = "max"    -> Norm(IF v < x THEN x ELSE v, w, u)
      [] op \in {"inc", "preinc", "postinc"} -> Norm(v + 1, w, u)
      [] op \in {"dec", "predec", "postdec"} -> Norm(v - 1, w, u)
      [] op = "load"   -> v
\* what the call returns, given the value before the update
Result(op, v, x, w, u) == IF op \in {"postinc", "postdec"} THEN v ELSE Apply(op, v, x, w, u)
=============================================================================
