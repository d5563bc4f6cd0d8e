------------------------------ MODULE ArrayAlg ------------------------------
(* Fixed-size arrays as registers of a small machine: every operation the array
   types offer, on whole arrays, scalars and elements - also elements of the
   target itself - acts element by element on the values before the call. *)
EXTENDS Integers, Sequences
VARIABLES reg,                     \* register -> sequence of numbers
          unit                     \* they count multiples of 1/unit, so unit > 1 gives fractions;
                                   \* 0: multiples of some large value (no products and quotients)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* C++ integer division truncates
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN 0 - q ELSE q
Apply(o, x, y) == CASE o = "add" -> x + y [] o = "sub" -> x - y [] o = "mul" -> Quot(x * y, unit) [] o = "div" -> Quot(x * unit, y)
Defined(o, y) == (o = "div" => y # 0) /\ (o \in {"mul", "div"} => unit # 0)
Exact(o, x, y) == /\ o = "div" => y # 0 /\ Quot(x * unit, y) * y = x * unit
                  /\ o = "mul" => Quot(x * y, unit) * unit = x * y
N == Len(reg[1])
Idx == 1..N
All(v) == [i \in Idx |-> v]
Map(o, a, b) == [i \in Idx |-> Apply(o, a[i], b[i])]
Ok(o, b) == \A i \in Idx : Defined(o, b[i])
Put(r, v) == reg' = [reg EXCEPT ![r] = v] /\ UNCHANGED unit
\* r op= s,  r op= scalar,  r op= s[i]  (s may be r)
CompArr(o, r, s) == Ok(o, reg[s]) /\ Put(r, Map(o, reg[r], reg[s]))
CompVal(o, r, v) == Defined(o, v) /\ Put(r, Map(o, reg[r], All(v)))
CompElem(o, r, s, i) == CompVal(o, r, reg[s][i])
\* t = r op s,  t = r op scalar,  t = scalar op r
BinArr(o, t, r, s) == Ok(o, reg[s]) /\ Put(t, Map(o, reg[r], reg[s]))
BinVal(o, t, r, v) == Defined(o, v) /\ Put(t, Map(o, reg[r], All(v)))
ValBin(o, t, v, r) == Ok(o, reg[r]) /\ Put(t, Map(o, All(v), reg[r]))
Neg(t, r) == Put(t, [i \in Idx |-> 0 - reg[r][i]])
Copy(t, r) == Put(t, reg[r])
Fill(t, v) == Put(t, All(v))
FillElem(t, r, i) == Put(t, All(reg[r][i]))
Swap(r, s) == reg' = [reg EXCEPT ![r] = reg[s], ![s] = reg[r]] /\ UNCHANGED unit
Write(r, i, v) == reg' = [reg EXCEPT ![r][i] = v] /\ UNCHANGED unit
Less(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
=============================================================================
