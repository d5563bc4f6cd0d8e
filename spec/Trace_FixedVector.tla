-------------------------- MODULE Trace_FixedVector --------------------------
(* Recorded histories of real fixed_vectors against FixedVector.  "new" starts *)
(* a fresh pair with its own capacity; every other event must be an action of  *)
(* the specification with the recorded return value and contents.              *)
EXTENDS FloatCmp, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES x, last, l, cap
FV == INSTANCE FixedVector WITH N <- 1000000, Vals <- {}
E == Trace[l]
Do(e) ==
    LET i == e.i  a == e.a  q == e.q  r == e.r IN
    CASE e.op = "assignN" -> FV!AssignN(i, a, q)
      [] e.op = "assignSeq" -> FV!AssignSeq(i, r)
      [] e.op = "assignList" -> FV!AssignList(i, r)
      [] e.op = "constructN" -> FV!ConstructN(i, a, q)
      [] e.op = "constructSeq" -> FV!ConstructSeq(i, r)
      [] e.op = "constructList" -> FV!ConstructList(i, r)
      [] e.op = "insertCopy" -> FV!InsertCopy(i, a, q)
      [] e.op = "insertMove" -> FV!InsertMove(i, a, q)
      [] e.op = "insertSelf" -> FV!InsertSelf(i, a, q)
      [] e.op = "insertN" -> FV!InsertN(i, a, r[1], q)
      [] e.op = "insertNSelf" -> FV!InsertNSelf(i, a, r[1], q)
      [] e.op = "insertSeq" -> FV!InsertSeq(i, a, r)
      [] e.op = "insertList" -> FV!InsertList(i, a, r)
      [] e.op = "erase" -> FV!Erase(i, a)
      [] e.op = "eraseSome" -> FV!EraseSome(i, a, q)
      [] e.op = "pushCopy" -> FV!PushCopy(i, q)
      [] e.op = "pushMove" -> FV!PushMove(i, q)
      [] e.op = "emplaceBack" -> FV!EmplaceBack(i, q)
      [] e.op = "popBack" -> FV!PopBack(i)
      [] e.op = "clear" -> FV!Clear(i)
      [] e.op = "resizeV" -> FV!ResizeV(i, a, q)
      [] e.op = "resizeDown" -> FV!ResizeDown(i, a)
      [] e.op = "resizeUp" -> /\ Len(e.x[i]) = a     \* fresh elements: whatever was observed
                              /\ FV!ResizeUp(i, a, SubSeq(e.x[i], Len(x[i]) + 1, a))
      [] e.op = "swap" -> FV!Swap
      [] e.op = "copyAssign" -> FV!CopyAssign(i)
      [] e.op = "copyConstruct" -> FV!CopyConstruct(i)
      [] e.op = "selfAssign" -> FV!SelfAssign(i)
      [] e.op = "moveAssign" -> FV!MoveAssign(i)
      [] e.op = "moveConstruct" -> FV!MoveConstruct(i)
      [] e.op = "setAt" -> FV!SetAt(i, a, q)
      [] e.op = "equal" -> FV!Equal
      [] e.op = "at" -> FV!AtIn(i, a) \/ FV!AtOut(i, a)
New == E.op = "new" /\ x' = <<<<>>, <<>>>> /\ last' = [ret |-> -1] /\ cap' = E.n
\* after all vectors are gone no element may be left alive
Leak == E.op = "leak" /\ E.ret = 0 /\ UNCHANGED <<x, cap>> /\ last' = [ret |-> 0]
\* stateless: comparing floating point elements; sizes and counts of a vector of a large capacity
Min(a, b) == IF a < b THEN a ELSE b
Alone == /\ \/ E.op = "emplaced" /\ E.made
            \/ E.op = "feq" /\ E.r = (IF SeqFEq(E.a, E.b) THEN 1 ELSE 0)
            \/ /\ E.op = "filled" /\ E.s = <<E.n, E.m, E.cap, IF E.cap > E.e THEN E.cap - 1 ELSE E.cap>>
               /\ E.c = <<E.n, E.m - Min(E.n, E.m), E.cap - E.m>>
         /\ UNCHANGED <<x, last, cap>>
\* histories of vectors of a large capacity; contents are given as runs
R == INSTANCE RunSeq
Long ==
    LET i == E.i  a == E.a  q == E.q  r == E.r  c == x[i]  o == x[3 - i]  n == R!SizeR(x[i])
        D(k, w, ret) == x' = [x EXCEPT ![i] = w] /\ last' = [ret |-> ret] /\ R!SizeR(w) <= cap
    IN /\ cap' = cap
       /\ CASE E.op = "Lassign" -> D(i, R!RepR(a, q), -1)
            [] E.op = "LassignSeq" -> D(i, r, -1)
            [] E.op = "Linsert" -> D(i, R!InsertR(c, a, R!RepR(1, q)), a)
            [] E.op = "LinsertN" -> D(i, R!InsertR(c, a, r), a)
            [] E.op = "LinsertSeq" -> D(i, R!InsertR(c, a, r), a)
            [] E.op = "Lerase" -> D(i, R!EraseR(c, a, a + 1), a)
            [] E.op = "LeraseSome" -> D(i, R!EraseR(c, a, q), a)
            [] E.op = "Lresize" -> D(i, R!ResizeR(c, a, q), -1)
            [] E.op = "Lcut" -> a <= n /\ D(i, R!TakeR(c, a), -1)
            [] E.op = "Lpush" -> D(i, R!PushR(c, q, 1), -1)
            [] E.op = "Lpop" -> D(i, R!TakeR(c, n - 1), -1)
            [] E.op = "Lset" -> D(i, R!SetR(c, a, q), -1)
            [] E.op = "Lcopy" -> D(i, o, -1)
            [] E.op = "Lswap" -> x' = <<x[2], x[1]>> /\ last' = [ret |-> -1]
            [] E.op = "Lequal" -> D(i, c, IF c = o THEN 1 ELSE 0)
            [] E.op = "Lat" -> D(i, c, IF a < n THEN R!AtR(c, a) ELSE -99)
            [] OTHER -> FALSE
       /\ last'.ret = E.ret
LongOps == {"Lassign", "LassignSeq", "Linsert", "LinsertN", "LinsertSeq", "Lerase", "LeraseSome", "Lresize", "Lcut", "Lpush", "Lpop", "Lset", "Lcopy", "Lswap", "Lequal", "Lat"}
Step == /\ E.op \notin {"new", "leak", "feq", "filled", "emplaced"} \cup LongOps
        /\ Do(E) /\ cap' = cap
        /\ last'.ret = E.ret
        /\ Len(x'[1]) <= cap /\ Len(x'[2]) <= cap
Init == x = <<<<>>, <<>>>> /\ last = [ret |-> -1] /\ l = 1 /\ cap = 0
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (New \/ Leak \/ Alone \/ Step \/ (E.op \in LongOps /\ Long))
        /\ E.op \notin {"leak", "feq", "filled", "emplaced"} => x' = E.x /\ E.ok
Spec == Init /\ [][Next]_<<x, last, l, cap>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
