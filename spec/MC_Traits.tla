------------------------------ MODULE MC_Traits ------------------------------
(* Types under construction: members, signatures and index types are added.     *)
EXTENDS Traits
CONSTANTS Members, Sigs, Ixs
VARIABLES F, S, X
vars == <<F, S, X>>
SigsV == {<<>>, <<"i">>, <<"d">>, <<"s">>, <<"i", "s">>, <<"d", "d">>}
Init == F = {} /\ S = {} /\ X = {}
Next == \/ S = {} /\ X = {} /\ \E m \in Members \ F : F' = F \cup {m} /\ UNCHANGED <<S, X>>
        \/ F = {} /\ \E s \in Sigs \ S : S' = S \cup {s} /\ UNCHANGED <<F, X>>
        \/ F = {} /\ \E x \in Ixs \ X : X' = X \cup {x} /\ UNCHANGED <<F, S>>
Spec == Init /\ [][Next]_vars
Args == UNION {[1..n -> {"i", "d", "s"}] : n \in 0..2}
\* what a type can do it still can with more members, and every container is a minimal one
Grows == [][/\ (IsContainer(F) => IsContainer(F')) /\ (IsMinimal(F) => IsMinimal(F')) /\ (IsIterator(F) => IsIterator(F'))
            /\ \A a \in Args : HasCall(S, a) => HasCall(S', a)]_vars
Needed == /\ (IsContainer(F) => IsMinimal(F))
          /\ \A m \in ContainerNeeds : ~IsContainer(F \ {m})
          /\ \A m \in IteratorNeeds : ~IsIterator(F \ {m})
Calls == /\ \A s \in S : HasCall(S, s)
         /\ (\E a \in Args : HasCall(S, a)) = IsCallable(S)
         /\ \A a \in Args : HasCall(S, a) => \A k \in 1..Len(a) : a[k] = "i" => HasCall(S, [a EXCEPT ![k] = "d"])
         /\ \A x \in X : HasSubscript(X, x)
         /\ (HasSubscript(X, "i") = HasSubscript(X, "d"))
=============================================================================
