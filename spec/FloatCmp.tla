----------------------------- MODULE FloatCmp -----------------------------
(* Floating point numbers for comparisons: a code is the number itself, NAN or
   NZ, the negative zero, which equals zero although its representation differs. *)
EXTENDS Integers, Sequences
NAN == 99
NZ == 100
Val(c) == IF c = NZ THEN 0 ELSE c
FEq(a, b) == a # NAN /\ b # NAN /\ Val(a) = Val(b)
FLt(a, b) == a # NAN /\ b # NAN /\ Val(a) < Val(b)
SeqFEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FEq(a[i], b[i])
RECURSIVE SeqFLt(_, _)
SeqFLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE FLt(Head(a), Head(b)) \/ (~FLt(Head(b), Head(a)) /\ SeqFLt(Tail(a), Tail(b)))
HasNan(a) == \E i \in 1..Len(a) : a[i] = NAN
\* the six comparisons of sequences without NAN; with NAN only (in)equality is judged
Six(a, b) == LET B(x) == IF x THEN 1 ELSE 0  e == SeqFEq(a, b)  s == SeqFLt(a, b)  g == SeqFLt(b, a) IN
             IF HasNan(a) \/ HasNan(b) THEN B(e) + 2 * B(~e) ELSE B(e) + 2 * B(~e) + 4 * B(s) + 8 * B(~g) + 16 * B(g) + 32 * B(~s)
=============================================================================
