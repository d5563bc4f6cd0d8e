---------------------------- MODULE Trace_Python ----------------------------
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES path, loaded, store, slots, err, ret, l
P == INSTANCE Python WITH BIG <- 2000000001, Slots <- 1..3
E == Trace[l]
Do(e) == CASE e.op = "start" -> P!Start
           [] e.op = "path" -> P!AddPath(e.d, e.s)
           [] e.op = "import" -> P!Import(e.m, e.s)
           [] e.op = "attr" -> P!GetAttr(e.m, e.f, e.s)
           [] e.op = "call" -> P!Call(e.f, e.a, e.s)
           [] e.op = "build" -> P!Build(e.a, e.s)
           [] e.op = "set" -> P!SetElem(e.s, IF e.i < 0 THEN 999 ELSE e.i, e.x)
           [] e.op = "elem" -> P!Elem(e.t, IF e.i < 0 THEN 999 ELSE e.i, e.s)
           [] e.op = "long" -> P!ToLong(e.s)
           [] e.op = "double" -> P!ToDouble(e.s)
           [] e.op = "run" -> P!Run(e.p)
           [] e.op = "free" -> P!Free(e.s)
           [] e.op = "loop" -> UNCHANGED <<path, loaded, store, slots>> /\ P!Ok
FunSeq == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 17, 18, 19>>
Obs(e, sl) ==
          /\ e.err = err' /\ ~e.pend
          /\ (IF ret' = <<>> THEN e.ret = <<>>
              ELSE e.ret # <<>> /\ (IF e.op = "long" THEN P!ReadLong(ret', e.ret) ELSE P!ReadDouble(ret', e.ret)))
          /\ \A s \in 1..3 : P!Same(e.slots[s], sl[s])
          /\ P!SameNums(e.store, store')
          /\ e.path = path'
          /\ e.pr = Cardinality({s \in 1..3 : sl[s].k = 7})
          /\ e.rf = (IF loaded'[1] = 0 THEN <<>> ELSE [i \in 1..Len(FunSeq) |-> Cardinality({s \in 1..3 : sl[s].k = 4 /\ sl[s].v = <<FunSeq[i]>>})])
          /\ (e.op = "loop" => ~e.grown /\ ~e.refs /\ ~e.bad)
Init == path = <<>> /\ loaded = [m \in 1..6 |-> 0] /\ store = <<>> /\ slots = [s \in 1..3 |-> P!Empty] /\ err = FALSE /\ ret = <<>> /\ l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Do(E) /\ (\E sl \in {slots'} : Obs(E, sl))
Spec == Init /\ [][Next]_<<path, loaded, store, slots, err, ret, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
