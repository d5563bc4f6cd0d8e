-------------------------- MODULE Trace_InputEngine --------------------------
(* Recorded histories of the real engine, its sources and init values against  *)
(* InputEngine: 5 names x 6 types, 2 engines, 3 init values.                   *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tg, reg, fail, called, hc, src, iv, last, l
AllPairs == 1..30
NameOf_ == [p \in AllPairs |-> (p - 1) \div 6 + 1]
KindOf_ == [p \in AllPairs |-> (<<1, 2, 3, 3, 1, 4>>)[(p - 6 * ((p - 1) \div 6))]]
IE == INSTANCE InputEngine WITH Pairs <- AllPairs, NameOf <- NameOf_, KindOf <- KindOf_, Vals <- 1..9,
      Engines <- {1, 2}, Docs <- <<>>, IVs <- {1, 2, 3}, Judge <- {0, 1, 2, 3}
E == Trace[l]
AsFun(s) == [p \in AllPairs |-> IF \E k \in 1..Len(s) : s[k][1] = p
                             THEN s[CHOOSE k \in 1..Len(s) : s[k][1] = p][2] ELSE 0]
AsSet(s) == {s[k] : k \in 1..Len(s)}
TypeOf(p) == (p - 6 * ((p - 1) \div 6))
Do(e) == CASE e.op = "register" -> IE!Reg(e.a)
           [] e.op = "sethc" -> IE!SetHC(e.a, e.b)
           [] e.op = "clearhc" -> IE!ClearHC(AllPairs) /\ last' = [ret |-> 0]
           [] e.op = "clearhct" -> IE!ClearHC({p \in AllPairs : TypeOf(p) = e.a}) /\ last' = [ret |-> 0]
           [] e.op = "usehc" -> IE!UseHC(e.a, e.b = 1)
           [] e.op = "uselua" -> IE!UseLua(e.a, e.d) /\ last' = [ret |-> 0]
           [] e.op = "resolve" -> IE!Resolve(e.a)
           [] e.op = "instant" -> IE!Instant(e.a, e.b)
           [] e.op = "get" -> IE!Get(e.a)
           [] e.op = "resolved" -> IE!Resolved(e.a)
           [] e.op = "has" -> IE!HasSource(e.a)
           [] e.op = "clear" -> IE!Clear
           [] e.op = "newiv" -> IE!NewIV(e.a, e.b, e.c)
           [] e.op = "ivget" -> IE!IVGet(e.a)
           [] e.op = "ivresolved" -> IE!IVResolved(e.a)
           [] e.op = "ivvalid" -> IE!IVValid(e.a)
\* a status with a verdict is exact; before any verdict the code may say
\* registered, failed or initialized, whichever question was asked last
StatusOk(i, s) == IF iv'[i].st \in {4, 5} THEN s = iv'[i].st
                  ELSE IF iv'[i].st = 0 THEN s = 0 ELSE s \in {1, 2, 3}
New == /\ E.op = "new" /\ tg' = {} /\ reg' = AsFun(<<>>) /\ fail' = {} /\ called' = FALSE
       /\ hc' = AsFun(<<>>) /\ src' = [e \in {1, 2} |-> [hard |-> FALSE, lua |-> <<>>]]
       /\ iv' = [i \in {1, 2, 3} |-> IE!NoIV] /\ last' = [ret |-> 0]
Init == IE!Init /\ l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (New \/ (E.op # "new" /\ Do(E)))
        /\ last'.ret = E.ret
        /\ tg' = AsSet(E.tg) /\ fail' = AsSet(E.fl) /\ reg' = AsFun(E.rg) /\ hc' = AsFun(E.hc)
        /\ E.x = 0
        \* a resolution that fails names the targets that failed, and no others
        /\ (E.op = "resolve" => AsSet(E.said) = {NameOf_[p] : p \in fail'})
        /\ \A i \in {1, 2, 3} : /\ StatusOk(i, E.st[i])
                                /\ E.saw[i] # -2 => iv'[i].p # 0 /\ E.saw[i] = reg'[iv'[i].p] /\ E.saw[i] # 0
Spec == Init /\ [][Next]_<<tg, reg, fail, called, hc, src, iv, last, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
