------------------------------- MODULE Python -------------------------------
(* The embedded Python interpreter as a host program sees it: a search path, loaded modules with state of
   their own, and references held by the host ("slots").  Calls either produce an object or fail; a failing
   call is reported to the host and changes nothing it did not change before it failed.

   A number is <<t, n, okl, okd, l1..l4, d1..d4>>: t 0 = int, 1 = float; n = four times its value when that is
   a small whole number (BIG otherwise); l = its integer value (towards zero) in 16-bit pieces when okl = 1,
   d = the bits of its double value when okd = 1.  The pieces only matter when n = BIG. *)
EXTENDS Integers, Sequences
CONSTANTS BIG, Slots
VARIABLES path, loaded, store, slots, err, ret
vars == <<path, loaded, store, slots, err, ret>>

Z4 == <<0, 0, 0, 0>>
Small(t, n) == <<t, n, 1, 1>> \o Z4 \o Z4
\* numbers are the same object value: same type, same value
SameNum(a, b) == a[1] = b[1] /\ a[2] = b[2]
                 /\ (a[2] = BIG => a[3] = b[3] /\ a[4] = b[4]
                                     /\ (IF a[1] = 0 /\ a[3] = 1 THEN SubSeq(a, 5, 8) = SubSeq(b, 5, 8) ELSE SubSeq(a, 9, 12) = SubSeq(b, 9, 12)))
SameNums(s, u) == Len(s) = Len(u) /\ \A i \in 1..Len(s) : SameNum(s[i], u[i])
Same(x, y) == x.k = y.k /\ (x.k = 1 => SameNum(x.v, y.v)) /\ (x.k \in {4, 5} => x.v = y.v) /\ (x.k = 6 => SameNums(x.e, y.e))

Empty == [k |-> 0, v |-> <<>>, e |-> <<>>]
Num(x) == [k |-> 1, v |-> x, e |-> <<>>]
None == [k |-> 2, v |-> <<>>, e |-> <<>>]
Str == [k |-> 3, v |-> <<>>, e |-> <<>>]
Fun(f) == [k |-> 4, v |-> <<f>>, e |-> <<>>]
Mod(m, d) == [k |-> 5, v |-> <<m, d>>, e |-> <<>>]
Tup(s) == [k |-> 6, v |-> <<>>, e |-> s]
PathList == [k |-> 7, v |-> <<>>, e |-> <<>>]
IntN(i) == Small(0, 4 * i)
ToInt(x) == x[2] \div 4                             \* of a small int
Trunc4(n) == IF n >= 0 THEN n \div 4 ELSE -((-n) \div 4)

\* values read by the host: the number, or failure (<<>>)
AsLong(o) == IF o.k # 1 THEN <<>>
             ELSE IF o.v[2] # BIG THEN IntN(Trunc4(o.v[2]))
             ELSE IF o.v[3] = 1 THEN <<0, BIG, 1, 1>> \o SubSeq(o.v, 5, 8) \o Z4 ELSE <<>>
AsDouble(o) == IF o.k # 1 THEN <<>>
               ELSE IF o.v[2] # BIG THEN Small(1, o.v[2])
               ELSE IF o.v[4] = 1 THEN <<1, BIG, 1, 1>> \o Z4 \o SubSeq(o.v, 9, 12) ELSE <<>>
\* what a read returned agrees with it: whole numbers as such, others by their pieces (a large integer may be
\* returned for a float, and a double that is no multiple of 1/4, so only the pieces are compared)
ReadLong(x, r) == IF x[2] # BIG THEN r[2] = x[2] ELSE SubSeq(r, 5, 8) = SubSeq(x, 5, 8)
ReadDouble(x, r) == IF x[2] # BIG THEN r[2] = x[2] ELSE SubSeq(r, 9, 12) = SubSeq(x, 9, 12)

\* modules: 1 in directory 1, 3 in both (they differ), 4 raises, 5 does not parse (both in 2), 6 does not exist
Has(d, m) == IF d = 1 THEN m \in {1, 3} ELSE m \in {3, 4, 5}
Found(m) == IF loaded[m] # 0 THEN loaded[m]
            ELSE LET ds == {i \in 1..Len(path) : Has(path[i], m)} IN
                 IF ds = {} THEN 0 ELSE path[CHOOSE i \in ds : \A j \in ds : i <= j]
Importable(m) == m \in {1, 3} /\ Found(m) # 0

Fail == err' = TRUE /\ ret' = <<>>
Ok == err' = FALSE /\ ret' = <<>>
Put(s, o) == slots' = [slots EXCEPT ![s] = o]

Start == path' = <<>> /\ loaded' = [m \in 1..6 |-> 0] /\ store' = <<>> /\ slots' = [s \in Slots |-> Empty] /\ Ok
AddPath(d, s) == /\ slots[s].k = 0 /\ path' = <<d>> \o path /\ Put(s, PathList) /\ Ok /\ UNCHANGED <<loaded, store>>
Import(m, s) == /\ slots[s].k = 0 /\ UNCHANGED <<path, store>>
                /\ IF Importable(m) THEN loaded' = [loaded EXCEPT ![m] = Found(m)] /\ Put(s, Mod(m, Found(m))) /\ Ok
                   ELSE Fail /\ UNCHANGED <<loaded, slots>>
\* attributes: functions 1..9, 10 = the number seven, 11 missing, 12..19 more functions, 20 = who (the directory, in module 3)
Funs == 1..9 \cup 12..19
Attr(o, f) == IF o.k = 5 /\ o.v[1] = 1 /\ f \in Funs THEN Fun(f)
              ELSE IF o.k = 5 /\ o.v[1] = 1 /\ f = 10 THEN Num(IntN(7))
              ELSE IF o.k = 5 /\ o.v[1] = 3 /\ f = 20 THEN Num(IntN(o.v[2]))
              ELSE Empty
GetAttr(m, f, s) == /\ slots[s].k = 0 /\ slots[m].k # 0 /\ UNCHANGED <<path, loaded, store>>
                    /\ IF Attr(slots[m], f).k # 0 THEN Put(s, Attr(slots[m], f)) /\ Ok ELSE Fail /\ UNCHANGED slots

TwoTo70 == <<0, BIG, 0, 1>> \o Z4 \o <<17488, 0, 0, 0>>
Nan == <<1, BIG, 0, 1>> \o Z4 \o <<32760, 0, 0, 0>>
NegInf == <<1, BIG, 0, 1>> \o Z4 \o <<65520, 0, 0, 0>>
TwoTo62f == <<1, BIG, 1, 1>> \o <<16384, 0, 0, 0>> \o <<17360, 0, 0, 0>>
\* what function f does with arguments a: [ok, o: result, st: store afterwards]
R(o) == [ok |-> TRUE, o |-> o, st |-> store]
Bad == [ok |-> FALSE, o |-> Empty, st |-> store]
Arity(a, n, r) == IF Len(a) = n THEN r ELSE Bad
IsIndex(x) == x[1] = 0 /\ x[2] # BIG /\ ToInt(x) >= 0 /\ ToInt(x) < Len(store)
Apply(f, a) ==
  CASE f = 1 -> R(Tup(a))                                                     \* echo
    [] f = 2 -> [ok |-> TRUE, o |-> Num(IntN(Len(store) + Len(a))), st |-> store \o a]  \* push
    [] f = 3 -> IF Len(a) = 1 /\ IsIndex(a[1]) THEN R(Num(store[ToInt(a[1]) + 1])) ELSE Bad   \* nth
    [] f = 4 -> R(Tup([i \in 1..Len(a) |-> IntN(a[i][1])]))                    \* types
    [] f = 5 -> Bad                                                           \* raise
    [] f = 6 -> [ok |-> FALSE, o |-> Empty, st |-> store \o a]                \* push, then raise
    [] f = 7 -> Arity(a, 0, R(None))
    [] f = 8 -> Arity(a, 0, R(Str))
    [] f = 9 -> IF Len(a) = 2 THEN R(Tup(<<a[2], a[1]>>)) ELSE Bad
    [] f = 12 -> Arity(a, 0, R(Num(IntN(Len(store)))))
    [] f = 13 -> Arity(a, 0, R(Num(TwoTo70)))
    [] f = 14 -> Arity(a, 0, R(Num(Nan)))
    [] f = 15 -> Arity(a, 0, R(Num(NegInf)))
    [] f = 16 -> Arity(a, 0, R(Num(TwoTo62f)))
    [] f = 17 -> IF Len(a) = 1 THEN R(Num(a[1])) ELSE Bad                     \* identity
    [] f = 18 -> R(Fun(1))                                                    \* returns the function echo
    [] f = 19 -> Arity(a, 0, [ok |-> TRUE, o |-> None, st |-> <<>>])          \* clear
Call(f, a, s) == /\ slots[s].k = 0 /\ slots[f].k # 0 /\ UNCHANGED <<path, loaded>>
                 /\ IF slots[f].k # 4 THEN Fail /\ UNCHANGED <<store, slots>>
                    ELSE LET r == Apply(slots[f].v[1], a) IN
                         /\ store' = r.st
                         /\ IF r.ok THEN Put(s, r.o) /\ Ok ELSE Fail /\ UNCHANGED slots
Build(a, s) == slots[s].k = 0 /\ Put(s, Tup(a)) /\ Ok /\ UNCHANGED <<path, loaded, store>>
SetElem(s, i, x) == /\ slots[s].k = 6 /\ UNCHANGED <<path, loaded, store>>
                    /\ IF i < Len(slots[s].e) THEN Put(s, Tup([slots[s].e EXCEPT ![i + 1] = x])) /\ Ok ELSE Fail /\ UNCHANGED slots
Elem(t, i, s) == /\ slots[s].k = 0 /\ slots[t].k = 6 /\ UNCHANGED <<path, loaded, store>>
                 /\ IF i < Len(slots[t].e) THEN Put(s, Num(slots[t].e[i + 1])) /\ Ok ELSE Fail /\ UNCHANGED slots
Read(x) == IF x = <<>> THEN Fail ELSE err' = FALSE /\ ret' = x
ToLong(s) == slots[s].k # 0 /\ Read(AsLong(slots[s])) /\ UNCHANGED <<path, loaded, store, slots>>
ToDouble(s) == slots[s].k # 0 /\ Read(AsDouble(slots[s])) /\ UNCHANGED <<path, loaded, store, slots>>
\* scripts: 1 pushes 5 in module 1, 2 does not parse, 3 pushes 6 and then raises, 4 does nothing, 5 names nothing known
Run(p) == /\ UNCHANGED <<path, slots>>
          /\ IF p \in {1, 3} /\ Importable(1)
             THEN /\ loaded' = [loaded EXCEPT ![1] = Found(1)] /\ store' = Append(store, IntN(IF p = 1 THEN 5 ELSE 6))
                  /\ IF p = 1 THEN Ok ELSE Fail
             ELSE UNCHANGED <<loaded, store>> /\ IF p = 4 THEN Ok ELSE Fail
Free(s) == slots[s].k # 0 /\ Put(s, Empty) /\ Ok /\ UNCHANGED <<path, loaded, store>>

\* references: each function is held by its module and by the slots holding it
Held(o) == {s \in Slots : Same(slots[s], o)}
=============================================================================
