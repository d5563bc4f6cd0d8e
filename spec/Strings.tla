------------------------------- MODULE Strings -------------------------------
(* The string helpers (string_utils.h, const_string.h, trivial_string.h) as      *)
(* functions on sequences of character codes.                                    *)
EXTENDS Integers, Sequences
SLASH == 47  DOT == 46  MINUS == 45
From(s, i) == SubSeq(s, i, Len(s))
StartsWith(s, i, f) == i + Len(f) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(f) - 1) = f
\* every non-overlapping occurrence from the left, once; what was inserted is not scanned again
RECURSIVE ReplFrom(_, _, _, _)
ReplFrom(s, i, f, t) == IF i > Len(s) THEN <<>>
                        ELSE IF StartsWith(s, i, f) THEN t \o ReplFrom(s, i + Len(f), f, t)
                        ELSE <<s[i]>> \o ReplFrom(s, i + 1, f, t)
ReplaceAll(s, f, t) == IF f = <<>> THEN s ELSE ReplFrom(s, 1, f, t)
\* the maximal pieces without delimiters, in order
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, i, D, cur) == IF i > Len(s) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                           ELSE IF s[i] \in D THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o SplitFrom(s, i + 1, D, <<>>)
                           ELSE SplitFrom(s, i + 1, D, Append(cur, s[i]))
Split(s, D) == SplitFrom(s, 1, D, <<>>)
\* last position of a character, 0 if none
LastOf(s, c) == IF \E i \in 1..Len(s) : s[i] = c THEN CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in i+1..Len(s) : s[j] # c ELSE 0
Base(s) == From(s, LastOf(s, SLASH) + 1)
\* the dot that starts the extension: the last one of the last path component, 0 if none
Dot(s) == IF LastOf(s, DOT) > LastOf(s, SLASH) THEN LastOf(s, DOT) ELSE 0
Ext(s) == IF Dot(s) = 0 THEN <<>> ELSE From(s, Dot(s) + 1)
Stem(s) == IF Dot(s) = 0 THEN s ELSE SubSeq(s, 1, Dot(s) - 1)
\* decimal digits of hi * 100000 + lo
RECURSIVE Dec(_)
Dec(n) == (IF n < 10 THEN <<>> ELSE Dec(n \div 10)) \o <<48 + (n - 10 * (n \div 10))>>
RECURSIVE Zeros(_)
Zeros(k) == IF k <= 0 THEN <<>> ELSE <<48>> \o Zeros(k - 1)
Pad(s, k) == Zeros(k - Len(s)) \o s
Text(hi, lo) == IF hi = 0 THEN Dec(lo) ELSE Dec(hi) \o Pad(Dec(lo), 5)
Signed(n) == IF n < 0 THEN <<MINUS>> \o Dec(-n) ELSE Dec(n)
\* a number of halves as decimal text
Halves(n) == LET a == IF n < 0 THEN -n ELSE n IN
             (IF n < 0 THEN <<MINUS>> ELSE <<>>) \o Dec(a \div 2) \o (IF a = 2 * (a \div 2) THEN <<>> ELSE <<DOT, 53>>)
=============================================================================
