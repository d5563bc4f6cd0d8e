-------------------------------- MODULE Args --------------------------------
(* Command lines.  A registry is a sequence of options [long, short, type]: names are sequences of character
   codes (short is <<>> or one code), types 0 flag, 1 int, 2 double, 3 string, 4 bool, 5 list of int.
   A command line is a sequence of tokens, each a sequence of codes.  It is read from left to right into
   occurrences <<option, has a text, text>>; words and options that are not registered are passed over. *)
EXTENDS Integers, Sequences, FiniteSets
DASH == 45
EQ == 61
\* ---- names
IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))
IndexOf(s, c) == IF \E i \in 1..Len(s) : s[i] = c THEN CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c ELSE 0
\* -1 = ambiguous, 0 = not registered; names may be abbreviated when that is unambiguous
FindLong(reg, n) ==
  LET exact == {i \in 1..Len(reg) : reg[i].long = n}
      part == {i \in 1..Len(reg) : IsPrefix(n, reg[i].long)}
      S == IF exact # {} THEN exact ELSE part
  IN IF S = {} THEN 0 ELSE IF Cardinality(S) > 1 THEN -1 ELSE CHOOSE i \in S : TRUE
FindShort(reg, c) == LET S == {i \in 1..Len(reg) : reg[i].short = <<c>>} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
IsLong(t) == Len(t) > 2 /\ t[1] = DASH /\ t[2] = DASH
IsShort(t) == Len(t) >= 2 /\ t[1] = DASH /\ t[2] # DASH
IsEnd(t) == t = <<DASH, DASH>>
\* is this token exactly a registered short option (which is then not taken as a value)?
IsKnownShort(reg, t) == Len(t) = 2 /\ IsShort(t) /\ FindShort(reg, t[2]) # 0
\* a long token with nothing after its '=' is an error wherever it stands
Dangling(t) == IsLong(t) /\ IndexOf(t, EQ) = Len(t)

\* ---- parsing: [err, occ, i]
Fault(r) == [r EXCEPT !.err = TRUE]
Occ(r, o, has, text) == [r EXCEPT !.occ = Append(@, <<o, has, text>>)]
\* option o whose text must follow (or not): adj = text attached to it, given when has
WithValue(reg, toks, r, o, has, adj) ==
  IF reg[o].type = 0 THEN IF has THEN Fault(r) ELSE [Occ(r, o, FALSE, <<>>) EXCEPT !.i = @ + 1]
  ELSE IF has THEN [Occ(r, o, TRUE, adj) EXCEPT !.i = @ + 1]
  ELSE IF r.i = Len(toks) THEN Fault(r)
  ELSE LET t == toks[r.i + 1] IN
       IF Dangling(t) \/ IsKnownShort(reg, t) THEN Fault(r) ELSE [Occ(r, o, TRUE, t) EXCEPT !.i = @ + 2]
RECURSIVE Shorts(_, _, _, _)
\* letters of a short token from position k on: flags may be joined, the first other option takes the rest
Shorts(reg, toks, r, k) ==
  LET t == toks[r.i]  o == FindShort(reg, t[k])  rest == From(t, k + 1) IN
  IF o = 0 THEN [r EXCEPT !.i = @ + 1]
  ELSE IF reg[o].type = 0 /\ rest # <<>> THEN Shorts(reg, toks, Occ(r, o, FALSE, <<>>), k + 1)
  ELSE WithValue(reg, toks, r, o, rest # <<>>, rest)
RECURSIVE Scan(_, _, _)
Scan(reg, toks, r) ==
  IF r.err \/ r.i > Len(toks) \/ IsEnd(toks[r.i]) THEN r
  ELSE LET t == toks[r.i] IN
       Scan(reg, toks,
         IF IsLong(t) THEN
           LET e == IndexOf(t, EQ)
               name == IF e = 0 THEN From(t, 3) ELSE SubSeq(t, 3, e - 1)
               o == FindLong(reg, name)
           IN IF Dangling(t) \/ o = -1 THEN Fault(r)
              ELSE IF o = 0 THEN [r EXCEPT !.i = @ + 1]
              ELSE WithValue(reg, toks, r, o, e # 0, IF e = 0 THEN <<>> ELSE From(t, e + 1))
         ELSE IF IsShort(t) THEN Shorts(reg, toks, r, 2)
         ELSE [r EXCEPT !.i = @ + 1])

\* ---- values, as sequences of codes ("canonical" decimals)
IsDigit(c) == c >= 48 /\ c <= 57
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
HasSign(s) == s # <<>> /\ s[1] \in {43, 45}
Unsigned(s) == IF HasSign(s) THEN From(s, 2) ELSE s
Neg(s) == HasSign(s) /\ s[1] = 45
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip(From(s, 2)) ELSE s
Max10(neg) == <<50, 49, 52, 55, 52, 56, 51, 54, 52, IF neg THEN 56 ELSE 55>>      \* 2147483647, 2147483648
LexLE(a, b) == a = b \/ \E i \in 1..Len(a) : (\A j \in 1..(i - 1) : a[j] = b[j]) /\ a[i] < b[i]   \* same length
IsInt(s) == Digits(Unsigned(s)) /\ LET d == Strip(Unsigned(s)) IN Len(d) < 10 \/ (Len(d) = 10 /\ LexLE(d, Max10(Neg(s))))
IntText(s) == LET d == Strip(Unsigned(s)) IN IF Neg(s) /\ d # <<48>> THEN <<45>> \o d ELSE d
RECURSIVE Nat10(_)
Nat10(s) == IF s = <<>> THEN 0 ELSE 10 * Nat10(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
\* decimals: digits, optionally a point and up to four digits; the value in ten-thousandths
IntPart(u) == LET p == IndexOf(u, 46) IN IF p = 0 THEN u ELSE SubSeq(u, 1, p - 1)
FracPart(u) == LET p == IndexOf(u, 46) IN IF p = 0 THEN <<>> ELSE From(u, p + 1)
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
IsDec(s) == LET u == Unsigned(s) IN AllDigits(IntPart(u)) /\ AllDigits(FracPart(u)) /\ Len(IntPart(u)) + Len(FracPart(u)) > 0
Pad4(s) == SubSeq(s \o <<48, 48, 48, 48>>, 1, 4)
DecVal(s) == LET u == Unsigned(s)  i == Strip(IntPart(u)) IN
             IF Len(i) > 5 THEN 2000000001                                    \* not distinguished further
             ELSE LET v == 10000 * Nat10(i) + Nat10(Pad4(FracPart(u))) IN IF Neg(s) THEN -v ELSE v
Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
Trues == {<<>>, <<111, 110>>, <<121, 101, 115>>, <<49>>, <<116, 114, 117, 101>>}
Falses == {<<111, 102, 102>>, <<110, 111>>, <<48>>, <<102, 97, 108, 115, 101>>}
Good(ty, s) == CASE ty = 0 -> TRUE [] ty \in {1, 5} -> IsInt(s) [] ty = 2 -> IsDec(s) [] ty = 3 -> TRUE [] ty = 4 -> Lower(s) \in Trues \cup Falses
Conv(ty, s) == CASE ty \in {1, 5} -> IntText(s) [] ty = 2 -> <<DecVal(s)>> [] ty = 3 -> s [] ty = 4 -> <<IF Lower(s) \in Trues THEN 1 ELSE 0>>

\* ---- results: [err, cnt, vals]; vals[o] = the converted texts of option o (<<>> when it was not given)
OccOf(occ, o) == SelectSeq(occ, LAMBDA x : x[1] = o)
Result(reg, toks) ==
  LET r == Scan(reg, toks, [err |-> FALSE, occ |-> <<>>, i |-> 1])
      per == [o \in 1..Len(reg) |-> OccOf(r.occ, o)]
      bad == r.err \/ \E o \in 1..Len(reg) : \/ (reg[o].type # 5 /\ Len(per[o]) > 1)
                                             \/ \E k \in 1..Len(per[o]) : ~Good(reg[o].type, per[o][k][3])
  IN IF bad THEN [err |-> TRUE, cnt |-> <<>>, vals |-> <<>>]
     ELSE [err |-> FALSE, cnt |-> [o \in 1..Len(reg) |-> IF per[o] = <<>> THEN 0 ELSE 1],
           vals |-> [o \in 1..Len(reg) |-> IF reg[o].type = 0 THEN <<>> ELSE [k \in 1..Len(per[o]) |-> Conv(reg[o].type, per[o][k][3])]]]
\* what is shown: 0 nothing, 1 the usage on the standard output (help asked), 2 an error and the usage
Help == <<104, 101, 108, 112>>
Shown(reg, toks, print) ==
  LET r == Result(reg, toks) IN
  IF ~print THEN 0 ELSE IF r.err THEN 2 ELSE IF \E o \in 1..Len(reg) : reg[o].long = Help /\ r.cnt[o] = 1 THEN 1 ELSE 0
=============================================================================
