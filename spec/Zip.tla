--------------------------------- MODULE Zip ---------------------------------
(* Zipped containers: one position moves through all of them; the iterator gives *)
(* access to the very elements.  Also filtered, tuple-wise and set-wise traversals *)
(* as functions.                                                                  *)
EXTENDS Integers, Sequences
VARIABLES cont,          \* the containers: sequences of equal length
          pos,           \* iterator slot -> position (0 = first element), -1: no iterator
          last
vars == <<cont, pos, last>>
N == IF cont = <<>> THEN 0 ELSE Len(cont[1])
Done(x) == last' = x
\* zipping is refused unless all lengths agree
Agree(lens) == \A i \in 1..Len(lens) : lens[i] = lens[1]
Zip(cs) == /\ Agree([i \in 1..Len(cs) |-> Len(cs[i])]) /\ cont' = cs /\ pos' = [i \in DOMAIN pos |-> -1] /\ Done(0)
Begin(i) == pos' = [pos EXCEPT ![i] = 0] /\ UNCHANGED cont /\ Done(0)
End(i) == pos' = [pos EXCEPT ![i] = N] /\ UNCHANGED cont /\ Done(0)
Inc(i) == pos[i] \in 0..N-1 /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ UNCHANGED cont /\ Done(0)
PostInc(i, j) == i # j /\ pos[j] \in 0..N-1 /\ pos' = [pos EXCEPT ![i] = pos[j], ![j] = @ + 1] /\ UNCHANGED cont /\ Done(0)
Copy(i, j) == i # j /\ pos[j] >= 0 /\ pos' = [pos EXCEPT ![i] = pos[j]] /\ UNCHANGED cont /\ Done(0)
Equal(i, j) == pos[i] >= 0 /\ pos[j] >= 0 /\ UNCHANGED <<cont, pos>> /\ Done(IF pos[i] = pos[j] THEN 1 ELSE 0)
Read(i) == pos[i] \in 0..N-1 /\ UNCHANGED <<cont, pos>> /\ Done(0)      \* gives Row(pos[i])
Row(p) == [c \in 1..Len(cont) |-> cont[c][p + 1]]
Write(i, c, v) == pos[i] \in 0..N-1 /\ c \in 1..Len(cont) /\ cont' = [cont EXCEPT ![c][pos[i] + 1] = v] /\ UNCHANGED pos /\ Done(0)
\* the whole loop: every position once, in order
All == [p \in 1..N |-> Row(p - 1)]
\* ---- other traversals -----------------------------------------------------------------
Filter(s, m, r) == SelectSeq(s, LAMBDA x : x - m * (x \div m) = r)      \* elements congruent r modulo m
\* quotient as C++ gives it for integers
Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
\* element-wise operation; floating point results are logged times four
Elem(ty, op, a, b, r) ==
  IF ty = "i" THEN r = (CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> a * b [] op = "/" -> TDiv(a, b))
  ELSE CASE op = "+" -> r = 4 * (a + b) [] op = "-" -> r = 4 * (a - b) [] op = "*" -> r = 4 * a * b [] op = "/" -> r * b = 4 * a
\* with a scalar q / 4 on side "r" or "l"; "=": assigned
ElemQ(ty, op, side, a, q, r) ==
  IF ty = "i" THEN r = (CASE op = "+" -> TDiv(4 * a + q, 4)
                          [] op = "-" -> IF side = "r" THEN TDiv(4 * a - q, 4) ELSE TDiv(q - 4 * a, 4)
                          [] op = "*" -> TDiv(a * q, 4)
                          [] op = "/" -> IF side = "r" THEN TDiv(4 * a, q) ELSE TDiv(q, 4 * a)
                          [] op = "=" -> TDiv(q, 4))
  ELSE CASE op = "+" -> r = 4 * a + q [] op = "-" -> r = (IF side = "r" THEN 4 * a - q ELSE q - 4 * a) [] op = "*" -> r = a * q
         [] op = "/" -> (IF side = "r" THEN r * q = 16 * a ELSE r * a = q) [] op = "=" -> r = q
\* intersection of two sequences as multisets, sorted
RECURSIVE Meet(_, _)
Meet(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE IF a[1] = b[1] THEN <<a[1]>> \o Meet(Tail(a), Tail(b))
              ELSE IF a[1] < b[1] THEN Meet(Tail(a), b) ELSE Meet(a, Tail(b))
=============================================================================
