-------------------------- MODULE Trace_LuaHandles --------------------------
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES glob, kind, fld, hand, wrap, top, last, l
LH == INSTANCE LuaHandles WITH NG <- 3, NO <- 6, NH <- 4, NW <- 2
lv == <<glob, kind, fld, hand, wrap, top, last>>
E == Trace[l]
New == /\ E.op = "new"
       /\ glob' = <<0, 0, 0>> /\ kind' = [o \in 1..6 |-> ""] /\ fld' = [o \in 1..6 |-> <<0, 0>>]
       /\ hand' = [h \in 1..4 |-> <<>>] /\ wrap' = [w \in 1..2 |-> <<>>] /\ top' = TRUE /\ last' = [thrown |-> 0, ret |-> 0]
Do(e) == CASE e.op = "get" -> LH!Get(e.a, e.b)
           [] e.op = "idx" -> LH!Index(e.a, e.b, e.c)
           [] e.op = "copy" -> LH!Copy(e.a, e.b)
           [] e.op = "move" -> LH!Move(e.a, e.b)
           [] e.op = "del" -> LH!Del(e.a)
           [] e.op = "both" -> LH!Both(e.a, e.b)
           [] e.op = "call" -> LH!Call(e.a, e.b)
           [] e.op = "err" -> LH!CallErr
           [] e.op = "num" -> LH!AsNum(e.a)
           [] e.op = "pair" -> LH!AsPair(e.a)
           [] e.op = "set" -> LH!SetNum(e.a, e.b)
           [] e.op = "alias" -> LH!Alias(e.a, e.b)
           [] e.op = "mkt" -> LH!Make(e.a, "t", e.b)
           [] e.op = "mkf" -> LH!Make(e.a, "f", e.b)
           [] e.op = "fld" -> LH!SetField(e.a, e.b, e.c)
           [] e.op = "bad" -> LH!BadScript
           [] e.op = "wrap" -> LH!Wrap(e.a, e.b)
           [] e.op = "callw" -> LH!CallW(e.a)
           [] e.op = "copyw" -> LH!CopyW(e.a, e.b)
           [] e.op = "delw" -> LH!DelW(e.a)
           [] e.op = "drop" -> LH!DropTop
           [] e.op = "top" -> LH!GetTop(e.a)
Plain(v) == v > 0 \/ LH!IsTab(v)
\* a pair holding nil or a function cannot be read by the harness (99)
Seen(h) == IF Len(hand[h]) = 2 /\ ~(Plain(hand[h][1]) /\ Plain(hand[h][2])) THEN <<99, 99>> ELSE hand[h]
P == Trace[l - 1]       \* the event just taken
Obs == LET e == P IN
          /\ last.thrown = e.th /\ last.ret = e.ret
          /\ e.st = 1                                   \* the interpreter's stack is as it was
          /\ \A h \in 1..4 : e.hs[h] = Seen(h)
          /\ {e.al[i] : i \in 1..Len(e.al)} = LH!Alive  \* exactly the reachable objects survive collection
Init == /\ glob = <<0, 0, 0>> /\ kind = [o \in 1..6 |-> ""] /\ fld = [o \in 1..6 |-> <<0, 0>>]
        /\ hand = [h \in 1..4 |-> <<>>] /\ wrap = [w \in 1..2 |-> <<>>] /\ top = TRUE /\ last = [thrown |-> 0, ret |-> 0] /\ l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (New \/ (E.op # "new" /\ Do(E) /\ Obs'))
Spec == Init /\ [][Next]_<<lv, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
