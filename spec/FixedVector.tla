----------------------------- MODULE FixedVector -----------------------------
(* Two fixed-capacity vectors x[1], x[2] (utils/fixed_vector.h) as sequences  *)
(* bounded by the capacity N.  Every public call is one action; positions are *)
(* 0-based offsets from begin(), as the code's iterators are.  ret is what    *)
(* the call returns (an offset, a value, a truth value) or -1.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Vals

VARIABLES x,     \* x[1], x[2]: the contents
          last   \* the call that led here, with its return value

vars == <<x, last>>

SeqsUpTo(n) == UNION {[1..k -> Vals] : k \in 0..n}

Rep(n, v) == [k \in 1..n |-> v]
InsertAt(q, p, r) == SubSeq(q, 1, p) \o r \o SubSeq(q, p + 1, Len(q))
EraseRange(q, a, b) == SubSeq(q, 1, a) \o SubSeq(q, b + 1, Len(q))
Take(q, n) == SubSeq(q, 1, n)
Other(i) == 3 - i

\* --- the effect of each call on the target's contents ------------------------
Set(i, q) == x' = [x EXCEPT ![i] = q]
Call(op, i, a, q, r, ret) == last' = [op |-> op, i |-> i, a |-> a, q |-> q, r |-> r, ret |-> ret]

AssignN(i, n, v)   == n <= N /\ Set(i, Rep(n, v)) /\ Call("assignN", i, n, v, <<>>, -1)
AssignSeq(i, r)    == Len(r) <= N /\ Set(i, r) /\ Call("assignSeq", i, 0, 0, r, -1)
AssignList(i, r)   == Len(r) <= N /\ Set(i, r) /\ Call("assignList", i, 0, 0, r, -1)
ConstructN(i, n, v) == n <= N /\ Set(i, Rep(n, v)) /\ Call("constructN", i, n, v, <<>>, -1)
ConstructSeq(i, r) == Len(r) <= N /\ Set(i, r) /\ Call("constructSeq", i, 0, 0, r, -1)
ConstructList(i, r) == Len(r) <= N /\ Set(i, r) /\ Call("constructList", i, 0, 0, r, -1)
InsertCopy(i, p, v) == /\ p <= Len(x[i]) /\ Len(x[i]) < N
                       /\ Set(i, InsertAt(x[i], p, <<v>>)) /\ Call("insertCopy", i, p, v, <<>>, p)
InsertMove(i, p, v) == /\ p <= Len(x[i]) /\ Len(x[i]) < N
                       /\ Set(i, InsertAt(x[i], p, <<v>>)) /\ Call("insertMove", i, p, v, <<>>, p)
\* the inserted value is an element of the vector itself
InsertSelf(i, p, k) == /\ p <= Len(x[i]) /\ Len(x[i]) < N /\ k < Len(x[i])
                       /\ Set(i, InsertAt(x[i], p, <<x[i][k + 1]>>)) /\ Call("insertSelf", i, p, k, <<>>, p)
InsertN(i, p, n, v) == /\ p <= Len(x[i]) /\ Len(x[i]) + n <= N
                       /\ Set(i, InsertAt(x[i], p, Rep(n, v))) /\ Call("insertN", i, p, v, <<n>>, p)
InsertNSelf(i, p, n, k) == /\ p <= Len(x[i]) /\ Len(x[i]) + n <= N /\ k < Len(x[i])
                       /\ Set(i, InsertAt(x[i], p, Rep(n, x[i][k + 1]))) /\ Call("insertNSelf", i, p, k, <<n>>, p)
InsertSeq(i, p, r)  == /\ p <= Len(x[i]) /\ Len(x[i]) + Len(r) <= N
                       /\ Set(i, InsertAt(x[i], p, r)) /\ Call("insertSeq", i, p, 0, r, p)
InsertList(i, p, r) == /\ p <= Len(x[i]) /\ Len(x[i]) + Len(r) <= N
                       /\ Set(i, InsertAt(x[i], p, r)) /\ Call("insertList", i, p, 0, r, p)
Erase(i, p)         == /\ p < Len(x[i])
                       /\ Set(i, EraseRange(x[i], p, p + 1)) /\ Call("erase", i, p, 0, <<>>, p)
EraseSome(i, a, b)  == /\ a <= b /\ b <= Len(x[i])
                       /\ Set(i, EraseRange(x[i], a, b)) /\ Call("eraseSome", i, a, b, <<>>, a)
PushCopy(i, v)      == Len(x[i]) < N /\ Set(i, Append(x[i], v)) /\ Call("pushCopy", i, 0, v, <<>>, -1)
PushMove(i, v)      == Len(x[i]) < N /\ Set(i, Append(x[i], v)) /\ Call("pushMove", i, 0, v, <<>>, -1)
EmplaceBack(i, v)   == Len(x[i]) < N /\ Set(i, Append(x[i], v)) /\ Call("emplaceBack", i, 0, v, <<>>, -1)
PopBack(i)          == Set(i, Take(x[i], IF x[i] = <<>> THEN 0 ELSE Len(x[i]) - 1)) /\ Call("popBack", i, 0, 0, <<>>, -1)
Clear(i)            == Set(i, <<>>) /\ Call("clear", i, 0, 0, <<>>, -1)
ResizeV(i, n, v)    == /\ n <= N
                       /\ Set(i, IF n <= Len(x[i]) THEN Take(x[i], n) ELSE x[i] \o Rep(n - Len(x[i]), v))
                       /\ Call("resizeV", i, n, v, <<>>, -1)
\* growing without a value leaves the values of the new elements unspecified
ResizeDown(i, n)    == n <= Len(x[i]) /\ Set(i, Take(x[i], n)) /\ Call("resizeDown", i, n, 0, <<>>, -1)
ResizeUp(i, n, fill) == /\ n <= N /\ n > Len(x[i]) /\ Len(fill) = n - Len(x[i])
                        /\ Set(i, x[i] \o fill) /\ Call("resizeUp", i, n, 0, <<>>, -1)
Swap                == x' = <<x[2], x[1]>> /\ Call("swap", 1, 0, 0, <<>>, -1)
CopyAssign(i)       == Set(i, x[Other(i)]) /\ Call("copyAssign", i, 0, 0, <<>>, -1)
CopyConstruct(i)    == Set(i, x[Other(i)]) /\ Call("copyConstruct", i, 0, 0, <<>>, -1)
SelfAssign(i)       == UNCHANGED x /\ Call("selfAssign", i, 0, 0, <<>>, -1)
\* a moved-from vector is cleared by the caller before further use
MoveAssign(i)       == x' = [x EXCEPT ![i] = x[Other(i)], ![Other(i)] = <<>>] /\ Call("moveAssign", i, 0, 0, <<>>, -1)
MoveConstruct(i)    == x' = [x EXCEPT ![i] = x[Other(i)], ![Other(i)] = <<>>] /\ Call("moveConstruct", i, 0, 0, <<>>, -1)
SetAt(i, p, v)      == p < Len(x[i]) /\ Set(i, [x[i] EXCEPT ![p + 1] = v]) /\ Call("setAt", i, p, v, <<>>, -1)
Equal               == UNCHANGED x /\ Call("equal", 1, 0, 0, <<>>, IF x[1] = x[2] THEN 1 ELSE 0)
AtIn(i, p)          == p < Len(x[i]) /\ UNCHANGED x /\ Call("at", i, p, 0, <<>>, x[i][p + 1])
AtOut(i, p)         == p >= Len(x[i]) /\ UNCHANGED x /\ Call("at", i, p, 0, <<>>, -99)   \* throws
\* a call exceeding the capacity is refused and has no effect
TooMany(op, i, k)   == Len(x[i]) + k > N /\ UNCHANGED x /\ Call(op, i, k, 0, <<>>, -98)

Init == x = <<<<>>, <<>>>> /\ last = [op |-> "init", i |-> 1, a |-> 0, q |-> 0, r |-> <<>>, ret |-> -1]

Pos == 0..N
Next == \E i \in {1, 2} :
    \/ \E n \in 0..N, v \in Vals : AssignN(i, n, v) \/ ConstructN(i, n, v) \/ ResizeV(i, n, v)
    \/ \E r \in SeqsUpTo(N) : AssignSeq(i, r) \/ AssignList(i, r) \/ ConstructSeq(i, r) \/ ConstructList(i, r)
    \/ \E p \in Pos, v \in Vals : InsertCopy(i, p, v) \/ InsertMove(i, p, v) \/ SetAt(i, p, v)
    \/ \E p \in Pos, n \in 0..N, v \in Vals : InsertN(i, p, n, v)
    \/ \E p \in Pos, k \in Pos : InsertSelf(i, p, k) \/ EraseSome(i, p, k)
    \/ \E p \in Pos, n \in 0..N, k \in Pos : InsertNSelf(i, p, n, k)
    \/ \E p \in Pos, r \in SeqsUpTo(N) : InsertSeq(i, p, r) \/ InsertList(i, p, r)
    \/ \E p \in Pos : Erase(i, p) \/ AtIn(i, p) \/ AtOut(i, p) \/ ResizeDown(i, p)
    \/ \E v \in Vals : PushCopy(i, v) \/ PushMove(i, v) \/ EmplaceBack(i, v)
    \/ \E f \in SeqsUpTo(N) : Len(f) > 0 /\ ResizeUp(i, Len(x[i]) + Len(f), f)
    \/ PopBack(i) \/ Clear(i) \/ CopyAssign(i) \/ CopyConstruct(i) \/ MoveAssign(i) \/ MoveConstruct(i) \/ SelfAssign(i)
    \/ Swap \/ Equal
    \/ \E op \in {"insertCopy!", "insertMove!", "pushCopy!", "pushMove!", "emplaceBack!"} : TooMany(op, i, 1)
    \/ \E op \in {"insertN!", "insertSeq!", "insertList!", "resize!", "resizeV!", "assignN!", "assignSeq!"}, k \in 1..(N+1) : TooMany(op, i, k)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties *)
TypeOK == \A i \in {1, 2} : Len(x[i]) <= N /\ \A k \in DOMAIN x[i] : x[i][k] \in Vals
\* a returned position is a valid one
RetValid == [][last'.op \in {"insertCopy", "insertMove", "insertSelf", "insertN", "insertNSelf", "insertSeq", "insertList", "erase", "eraseSome"}
              => last'.ret \in 0..Len(x'[last'.i])]_vars
\* inserting and erasing the inserted range restores the sequence
InsertEraseLaw == \A p \in 0..Len(x[1]), r \in {<<>>, x[2]} :
                     EraseRange(InsertAt(x[1], p, r), p, p + Len(r)) = x[1]
\* calls on one vector leave the other alone (except swap and moves)
OtherUntouched == [][last'.op \notin {"swap", "moveAssign", "moveConstruct"} => x'[Other(last'.i)] = x[Other(last'.i)]]_vars
SizeLaw == [][ /\ last'.op \in {"insertCopy", "insertMove", "insertSelf", "pushCopy", "pushMove", "emplaceBack"}
                    => Len(x'[last'.i]) = Len(x[last'.i]) + 1
               /\ last'.op = "erase" => Len(x'[last'.i]) = Len(x[last'.i]) - 1
               /\ last'.op = "eraseSome" => Len(x'[last'.i]) = Len(x[last'.i]) - (last'.q - last'.a) ]_vars
View == x
=============================================================================
