------------------------------ MODULE MC_Strings ------------------------------
(* The laws of C18 on all short strings.                                         *)
EXTENDS Strings, TLC
CONSTANTS MaxLen
A == {97, 98, DOT, SLASH}
VARIABLES s, f, t
Strs(n, X) == UNION {[1..k -> X] : k \in 0..n}
Init == s \in Strs(MaxLen, A) /\ f \in Strs(2, {97, DOT}) /\ t \in Strs(2, {97, DOT})
Spec == Init /\ [][FALSE]_<<s, f, t>>
D == {f[i] : i \in 1..Len(f)}
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
Keep(q) == SelectSeq(q, LAMBDA c : c \notin D)
Occurs(q, p) == \E i \in 1..Len(q) : StartsWith(q, i, p)
Recombine == /\ (Dot(s) # 0 => Stem(s) \o <<DOT>> \o Ext(s) = s) /\ (Dot(s) = 0 => Stem(s) = s /\ Ext(s) = <<>>)
             /\ \A i \in 1..Len(Ext(s)) : Ext(s)[i] \notin {DOT, SLASH}
             /\ \A i \in 1..Len(Base(s)) : Base(s)[i] # SLASH
             /\ SubSeq(s, Len(s) - Len(Base(s)) + 1, Len(s)) = Base(s)
             /\ Ext(Base(s)) = Ext(s)
Pieces == /\ Cat(Split(s, D)) = Keep(s)
          /\ \A i \in 1..Len(Split(s, D)) : Split(s, D)[i] # <<>>
\* replacing by itself or a missing pattern changes nothing; the pattern is gone when the new text shares no letter with it
Replacing == /\ ReplaceAll(s, f, f) = s
             /\ (f # <<>> /\ ~Occurs(s, f) => ReplaceAll(s, f, t) = s)
             /\ (Len(f) = 1 /\ ~Occurs(t, f) => ~Occurs(ReplaceAll(s, f, t), f))
             /\ (Len(f) = 1 => Len(ReplaceAll(s, f, t)) = Len(s) + (Len(t) - 1) * Len(SelectSeq(s, LAMBDA c : c = f[1])))
=============================================================================
