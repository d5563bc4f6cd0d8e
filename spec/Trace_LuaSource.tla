--------------------------- MODULE Trace_LuaSource ---------------------------
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES doc, where, tab, last, l
LS == INSTANCE LuaSource WITH Names <- 1..9
E == Trace[l]
\* names 1 hydro 2 mesh 3 CFL 4 suffix (Lua: postfix) 5 postfix 6 xmin: the layout every source starts with
New == /\ E.op = "new" /\ doc' = E.doc
       /\ where' = <<<<0, 1>>, <<1, 2>>, <<1, 3>>, <<1, 5>>, <<>>, <<2, 6>>, <<>>, <<>>, <<>>>>
       /\ tab' = [n \in 1..9 |-> IF n = 1 THEN 2 ELSE IF n = 2 THEN 3 ELSE 0]
       /\ last' = last
Do(e) == CASE e.op = "value" -> LS!RegisterValue(e.a, e.b, e.c)
           [] e.op = "table" -> LS!RegisterTable(e.a, e.b, e.c)
           [] e.op = "num" -> LS!GetNum(e.a)
           [] e.op = "seq" -> LS!GetSeq(e.a)
           [] e.op = "size" -> LS!GetSize(e.a) \/ (LS!Denotes(where[e.a]) = 0 /\ UNCHANGED <<doc, where, tab, last>>)
           [] e.op = "tab" -> LS!GetTable(e.a)
Obs(e) == \/ e.op = "size" /\ LS!Denotes(where[e.a]) = 0
          \/ last'.ret = e.ret /\ last'.val = e.val /\ last'.seq = e.seq
\* the predefined keys: their table (100 hydro, 200 mesh) and the number of their Lua name (13 postfix, 14 type, 15 ics)
Preset == E.op = "preset" /\ E.seq = <<101, 113, 103, 104, 105, 106, 214, 208, 209, 210, 211, 115>> /\ UNCHANGED <<doc, where, tab, last>>
Init == /\ doc = <<>> /\ where = <<>> /\ tab = <<>> /\ l = 1 /\ last = [ret |-> 0, val |-> 0, seq |-> <<>>]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ (New \/ Preset \/ (E.op \notin {"new", "preset"} /\ Do(E) /\ Obs(E)))
Spec == Init /\ [][Next]_<<doc, where, tab, last, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
