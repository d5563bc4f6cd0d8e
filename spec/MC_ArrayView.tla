---------------------------- MODULE MC_ArrayView ----------------------------
EXTENDS ArrayView, TLC, Json
CONSTANTS MaxRank, MaxExt, Deep
VARIABLES op, left
V == <<kind, base, ext, str, left>>
Tup(n, S) == [1..n -> S]
MaxE(n) == IF n >= 3 THEN MaxExt - 1 ELSE MaxExt
Exts == UNION { Tup(n, 0..MaxE(n)) : n \in 1..MaxRank }
Statics == {<<2>>, <<3>>, <<2, 2>>, <<1, 3>>, <<3, 2>>, <<2, 1, 2>>, <<1, 2, 2>>}
Pad(e, p) == RowMajor([i \in 1..Len(e) |-> e[i] + p])
K == [str |-> 0, dyn |-> 1, sta |-> 2]
Code(o, e) == LET z(s) == [i \in 1..4 |-> IF i <= Len(s) THEN s[i] ELSE 0] IN z(o) \o z(e)
Init == kind = "none" /\ base = 0 /\ ext = <<>> /\ str = <<>> /\ op = <<"init">> /\ left = Deep
RootStep == \/ \E e \in Exts, p \in 0..1 : Root("str", 0, e, Pad(e, p)) /\ op' = <<"root", 0, Len(e), p>> \o Code(e, <<>>)
            \/ \E e \in Exts : Root("dyn", 0, e, RowMajor(e)) /\ op' = <<"root", 1, Len(e), 0>> \o Code(e, <<>>)
            \/ \E e \in Statics : Root("sta", 0, e, RowMajor(e)) /\ op' = <<"root", 2, Len(e), 0>> \o Code(e, <<>>)
Next == \/ kind = "none" /\ RootStep /\ left' = left
        \/ /\ kind # "none" /\ left > 0 /\ left' = left - 1
           /\ \/ \E i \in 0..MaxExt : Slice(i) /\ op' = <<"slice", i>>
              \/ \E o \in Tup(Len(ext), 0..(MaxExt - 1)), e \in Tup(Len(ext), 0..MaxExt) : Section(o, e) /\ op' = <<"section", 0, 0, 0>> \o Code(o, e)
              \/ \E o \in Tup(Len(ext), 0..(MaxExt - 1)) : SectionFrom(o) /\ op' = <<"from", 0, 0, 0>> \o Code(o, <<>>)
              \/ ToStrided /\ op' = <<"tostr">>
              \/ ToDynamic /\ op' = <<"todyn">>
Spec == Init /\ [][Next]_<<V, op>>
EmitTransition == PrintT("T " \o ToJson(<<V, op', V'>>))
\* the laws
Sz == Size(ext)
Bijective == \A k \in 0..(Sz - 1) : Inside(ext, Unrank(ext, k)) /\ Rank(ext, Unrank(ext, k)) = k
Ordered == \A k \in 0..(Sz - 2) : Lexless(Unrank(ext, k), Unrank(ext, k + 1))
Distinct == Cardinality({Elements[k] : k \in 1..Sz}) = Sz
SpanFits == \A k \in 1..Sz : Elements[k] >= base /\ Elements[k] < base + Span(ext, str)
Contiguous == kind \in {"dyn", "sta"} => str = RowMajor(ext) /\ \A k \in 1..Sz : Elements[k] = base + k - 1
\* whatever is derived views elements of the parent only, in the parent's order
Derived == [][kind # "none" => /\ \A k \in 1..Size(ext') : \E j \in 1..Size(ext) : Elements'[k] = Elements[j]
                               /\ op'[1] \in {"tostr", "todyn"} => Elements' = Elements]_<<V, op>>
=============================================================================
