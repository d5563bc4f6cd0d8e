------------------------------ MODULE ArrayRef ------------------------------
(* array_ref: a window [off, off + len) on elements that belong to someone else; off = -1: on nothing. *)
EXTENDS Integers, Sequences
CONSTANT MAX                       \* stands for "to the end" in Sub
VARIABLES mem, off, len, refused
vars == <<mem, off, len, refused>>
Min(a, b) == IF a <= b THEN a ELSE b
View == [i \in 1..len |-> mem[off + i]]
Reversed == [i \in 1..len |-> mem[off + len + 1 - i]]
Set(o, n) == off' = o /\ len' = n /\ refused' = FALSE /\ UNCHANGED mem
Refuse == refused' = TRUE /\ UNCHANGED <<mem, off, len>>
Make(o, n) == o + n <= Len(mem) /\ Set(o, n)
Clear == Set(-1, 0)               \* nowhere, as a default-constructed one
\* positions and lengths are clamped at the end
Sub(p, n) == LET q == Min(p, len) IN Set(off + q, IF n = MAX THEN len - q ELSE Min(n, len - q))
DropFront(n) == IF n > len THEN Refuse ELSE Set(off + n, len - n)
DropBack(n) == IF n > len THEN Refuse ELSE Set(off, len - n)
\* the owner changes an element
Write(i, v) == i \in 1..Len(mem) /\ mem' = [mem EXCEPT ![i] = v] /\ refused' = FALSE /\ UNCHANGED <<off, len>>
=============================================================================
