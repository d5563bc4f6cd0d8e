------------------------------ MODULE MC_Args ------------------------------
EXTENDS Args
CONSTANT N
VARIABLE toks
\* help/h flag, flag/f flag, num/n int, numb int, vec/v list
o(a, b, t) == [long |-> a, short |-> b, type |-> t]
Reg == <<o(Help, <<104>>, 0), o(<<102, 108>>, <<102>>, 0), o(<<110, 117>>, <<110>>, 1), o(<<110, 117, 98>>, <<>>, 1), o(<<118>>, <<118>>, 5)>>
D == <<45, 45>>
NU == <<110, 117>>
Alpha == {D \o NU, D \o NU \o <<61, 53>>, D \o NU \o <<98, 61, 52>>, D \o <<110>>, D \o <<102>>, <<45, 102>>, <<45, 110>>, <<45, 110, 55>>, <<45, 102, 110, 50>>,
          D \o <<122>>, <<45, 122>>, <<119>>, <<51>>, D, D \o <<118, 61, 49>>, <<45, 118, 50>>}
Init == toks = <<>>
Next == Len(toks) < N /\ \E t \in Alpha : toks' = Append(toks, t)
Spec == Init /\ [][Next]_toks
R(x) == Result(Reg, x)
Res == R(toks)
\* a parsed line stays as it is when a word or an unknown option is added at either end
Transparent == LET r == Res IN ~r.err => \A t \in {<<119>>, D \o <<122>>, <<45, 122>>} : R(Append(toks, t)) = r /\ R(<<t>> \o toks) = r
\* nothing after "--" counts
Terminated == LET r == Res IN ~r.err => \A t \in Alpha : R(toks \o <<D, t>>) = r
\* presence is 0 or 1, and one value per occurrence
Counts == LET r == Res IN ~r.err => \A i \in 1..Len(Reg) : /\ r.cnt[i] \in {0, 1}
                                                        /\ (Reg[i].type # 0 => (r.cnt[i] = 1) = (r.vals[i] # <<>>))
                                                        /\ (Reg[i].type # 5 => Len(r.vals[i]) <= 1)
\* a single-valued option that is there cannot be given again, and a given value is never replaced
NoOverride == LET r == Res IN ~r.err /\ D \notin {toks[i] : i \in 1..Len(toks)} =>
  \A t \in {D \o NU \o <<61, 54>>, <<45, 110, 54>>} : (r.cnt[3] = 1 => R(Append(toks, t)).err) /\ (r.cnt[3] = 0 => R(Append(toks, t)).vals[3] = <<<<54>>>>)
\* the four ways of giving a value mean the same (when the line so far is complete)
Forms == LET r == Res IN ~r.err =>
  LET f == {R(toks \o x) : x \in {<<D \o NU \o <<61, 56>>>>, <<D \o NU, <<56>>>>, <<<<45, 110>>, <<56>>>>, <<<<45, 110, 56>>>>}} IN Cardinality(f) = 1
\* lines of self-contained tokens mean the same in any order (except the order within a list)
Closed == {D \o NU \o <<61, 53>>, D \o NU \o <<98, 61, 52>>, <<45, 102>>, <<45, 110, 55>>, <<45, 102, 110, 50>>, D \o <<122>>, <<119>>}
Swap(s, i) == [k \in 1..Len(s) |-> IF k = i THEN s[i + 1] ELSE IF k = i + 1 THEN s[i] ELSE s[k]]
AnyOrder == (\A i \in 1..Len(toks) : toks[i] \in Closed) => \A i \in 1..(Len(toks) - 1) : R(Swap(toks, i)) = Res
\* errors other than a missing value at the end are not repaired by more tokens
Errors == [][LET r == R(toks) IN r.err /\ ~R(toks').err => R(Append(toks, <<51>>)).err = FALSE]_toks
=============================================================================
