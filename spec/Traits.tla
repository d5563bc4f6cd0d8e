------------------------------- MODULE Traits -------------------------------
(* ristra/utils/type_traits.h, template_helpers.h: questions about types.       *)
(* A type is what it offers: a set of member names, a set of call signatures    *)
(* and a set of index types.  The answers depend on nothing else.               *)
EXTENDS Integers, Sequences, FiniteSets
ContainerNeeds == {"value_type", "size_type", "allocator_type", "iterator", "const_iterator",
                   "size", "begin", "end", "cbegin", "cend", "data"}
MinimalNeeds == {"size", "data"}
IteratorNeeds == {"difference_type", "pointer", "reference", "value_type", "iterator_category"}
IsContainer(F) == ContainerNeeds \subseteq F
IsMinimal(F) == MinimalNeeds \subseteq F
IsIterator(F) == IteratorNeeds \subseteq F
IsWriteable(F) == "<<" \in F
\* calls and subscripts: "i" integers and "d" reals convert into each other, "s" strings do not
Converts(a, p) == a = p \/ (a \in {"i", "d"} /\ p \in {"i", "d"})
IsCallable(sigs) == sigs # {}
HasCall(sigs, args) == \E s \in sigs : Len(s) = Len(args) /\ \A k \in 1..Len(s) : Converts(args[k], s[k])
HasSubscript(ixs, a) == \E p \in ixs : Converts(a, p)
\* a spelled type is <<base, decoration>>; decorations (const, volatile, references) do not count
AreType(t, ts) == \A k \in 1..Len(ts) : ts[k][1] = t[1]
Integral == {"i", "l", "c", "b", "u"}
AreIntegral(ts) == \A k \in 1..Len(ts) : ts[k][1] \in Integral
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE s[1] * Product(Tail(s))
=============================================================================
