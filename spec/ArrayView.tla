----------------------------- MODULE ArrayView -----------------------------
(* Multi-dimensional views on memory.  A view is a base offset, the extents
   and the strides; everything a user can see of it - element addresses, the
   order of iteration, positions of iterators, slices and sections - is defined
   here from these.  kind: "str" (any strides), "dyn" (contiguous, row-major),
   "sta" (contiguous with static extents). *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kind, base, ext, str
vars == <<kind, base, ext, str>>
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RowMajor(e) == [i \in 1..Len(e) |-> Prod(SubSeq(e, i + 1, Len(e)))]
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE Head(a) * Head(b) + Dot(Tail(a), Tail(b))
Quot(a, b) == (IF a < 0 THEN 0 - ((0 - a) \div b) ELSE a \div b)     \* truncating, b > 0
\* the k-th (from 0) multi-index in row-major order, and back
Unrank(e, k) == LET r == RowMajor(e) IN [i \in 1..Len(e) |-> (k \div r[i]) - e[i] * (k \div (r[i] * e[i]))]
Rank(e, x) == Dot(x, RowMajor(e))
Inside(e, x) == \A i \in 1..Len(e) : x[i] >= 0 /\ x[i] < e[i]
Size(e) == Prod(e)
Span(e, s) == IF Size(e) = 0 THEN 0 ELSE 1 + Dot([i \in 1..Len(e) |-> e[i] - 1], s)
Offset(x) == base + Dot(x, str)
\* all element offsets in iteration order
Elements == [k \in 1..Size(ext) |-> Offset(Unrank(ext, k - 1))]
Lexless(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

Set(k, b, e, s) == kind' = k /\ base' = b /\ ext' = e /\ str' = s
Root(k, b, e, s) == Set(k, b, e, s)
\* fix the most significant index
Slice(i) == Len(ext) > 1 /\ i >= 0 /\ i < ext[1] /\ Set(kind, base + i * str[1], Tail(ext), Tail(str))
\* the box of extents e that starts at o; a section is strided
CanSection(o, e) == Inside(ext, o) /\ \A i \in 1..Len(ext) : e[i] >= 0 /\ o[i] + e[i] <= ext[i]
Section(o, e) == CanSection(o, e) /\ Set("str", Offset(o), e, str)
SectionFrom(o) == Inside(ext, o) /\ Section(o, [i \in 1..Len(ext) |-> ext[i] - o[i]])
ToStrided == Set("str", base, ext, str)
ToDynamic == kind # "str" /\ Set("dyn", base, ext, str)
=============================================================================
