------------------------------- MODULE RunSeq -------------------------------
(* Long sequences written as runs <<value, length>>; adjacent runs differ and  *)
(* none is empty, so equal sequences have equal runs.  Offsets are 0-based.    *)
EXTENDS Integers, Sequences
PushR(q, v, n) == IF n = 0 THEN q ELSE IF q # <<>> /\ q[Len(q)][1] = v THEN [q EXCEPT ![Len(q)] = <<v, @[2] + n>>] ELSE Append(q, <<v, n>>)
RECURSIVE CatR(_, _), TakeR(_, _), DropR(_, _), SizeR(_), AtR(_, _), Expand(_)
CatR(q, r) == IF r = <<>> THEN q ELSE CatR(PushR(q, r[1][1], r[1][2]), Tail(r))
TakeR(r, n) == IF n <= 0 \/ r = <<>> THEN <<>> ELSE IF r[1][2] >= n THEN <<<<r[1][1], n>>>> ELSE <<r[1]>> \o TakeR(Tail(r), n - r[1][2])
DropR(r, n) == IF n <= 0 \/ r = <<>> THEN r ELSE IF r[1][2] > n THEN <<<<r[1][1], r[1][2] - n>>>> \o Tail(r) ELSE DropR(Tail(r), n - r[1][2])
SizeR(r) == IF r = <<>> THEN 0 ELSE r[1][2] + SizeR(Tail(r))
AtR(r, k) == IF k < r[1][2] THEN r[1][1] ELSE AtR(Tail(r), k - r[1][2])
RepR(n, v) == PushR(<<>>, v, n)
InsertR(q, p, r) == CatR(CatR(TakeR(q, p), r), DropR(q, p))
EraseR(q, a, b) == CatR(TakeR(q, a), DropR(q, b))
SetR(q, p, v) == CatR(PushR(TakeR(q, p), v, 1), DropR(q, p + 1))
ResizeR(q, n, v) == IF n <= SizeR(q) THEN TakeR(q, n) ELSE PushR(q, v, n - SizeR(q))
Expand(r) == IF r = <<>> THEN <<>> ELSE [k \in 1..r[1][2] |-> r[1][1]] \o Expand(Tail(r))
\* the run operations are the sequence operations
NormalR(r) == (\A k \in 1..Len(r) : r[k][2] > 0) /\ \A k \in 1..(Len(r) - 1) : r[k][1] # r[k + 1][1]
RunLists(V, L, M) == {r \in UNION {[1..k -> V \X (1..L)] : k \in 0..M} : NormalR(r)}
RunLaws(V, L, M) ==
    LET RR == RunLists(V, L, M) IN
    \A q \in RR : LET s == Expand(q) n == SizeR(q) IN
       /\ n = Len(s)
       /\ \A k \in 0..n : Expand(TakeR(q, k)) = SubSeq(s, 1, k) /\ Expand(DropR(q, k)) = SubSeq(s, k + 1, n)
       /\ \A k \in 0..(n - 1) : AtR(q, k) = s[k + 1]
       /\ \A k \in 0..(n - 1), v \in V : Expand(SetR(q, k, v)) = [s EXCEPT ![k + 1] = v]
       /\ \A r \in RR : /\ Expand(CatR(q, r)) = s \o Expand(r)
                        /\ (q = r) = (s = Expand(r))
                        /\ \A p \in 0..n : NormalR(InsertR(q, p, r)) /\ EraseR(InsertR(q, p, r), p, p + SizeR(r)) = q
=============================================================================
