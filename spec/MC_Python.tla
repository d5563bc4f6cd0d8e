----------------------------- MODULE MC_Python -----------------------------
EXTENDS Python, TLC, Json, FiniteSets
CONSTANTS MaxStore, MaxPath, Fs
VARIABLE op
Tab == <<IntN(1), Small(1, -10), IntN(0)>>          \* 1, -2.5, 0
Ids == 1..Len(Tab)
\* the first free slot takes the result (slots are interchangeable)
Dst == {s \in Slots : slots[s].k = 0 /\ \A t \in Slots : t < s => slots[t].k # 0}
ArgIds == {<<>>} \cup {<<i>> : i \in Ids} \cup {<<1, 2>>}
A(ids) == [i \in 1..Len(ids) |-> Tab[ids[i]]]
Init == path = <<>> /\ loaded = [m \in 1..6 |-> 0] /\ store = <<>> /\ slots = [s \in Slots |-> Empty] /\ err = FALSE /\ ret = <<>> /\ op = <<"init">>
Step == \/ (\A s \in Slots : slots[s].k = 0) /\ Start /\ op' = <<"start">>
        \/ \E s \in Dst, d \in 1..2 : Len(path) < MaxPath /\ AddPath(d, s) /\ op' = <<"path", d, s>>
        \/ \E s \in Dst, m \in {1, 3, 4, 5, 6} : Import(m, s) /\ op' = <<"import", m, s>>
        \/ \E s \in Dst, m \in Slots, f \in Fs \cup {10, 11, 20} : GetAttr(m, f, s) /\ op' = <<"attr", m, f, s>>
        \/ \E s \in Dst, f \in Slots, a \in ArgIds : Call(f, A(a), s) /\ op' = <<"call", f, s, Len(a)>> \o a
        \/ \E s \in Dst, t \in Slots, i \in 0..2 : Elem(t, i, s) /\ op' = <<"elem", t, i, s>>
        \/ \E s \in Slots : ToLong(s) /\ op' = <<"long", s>>
        \/ \E s \in Slots : ToDouble(s) /\ op' = <<"double", s>>
        \/ \E p \in 1..5 : Run(p) /\ op' = <<"run", p>>
        \/ \E s \in Slots : Free(s) /\ op' = <<"free", s>>
Next == Step /\ Len(store') <= MaxStore
Spec == Init /\ [][Next]_<<vars, op>>
V == <<path, loaded, store, slots>>
EmitTransition == PrintT("T " \o ToJson(<<V, op', V'>>))

\* --- laws ---
\* a failing call takes nothing away: references, path and earlier contents stay
FailurePure == [][err' /\ op'[1] # "start" => slots' = slots /\ path' = path /\ SubSeq(store', 1, Len(store)) = store]_<<vars, op>>
\* a module, once loaded, stays the same one, and references to it agree
LoadedStays == [][op'[1] # "start" => \A m \in 1..6 : loaded[m] # 0 => loaded'[m] = loaded[m]]_<<vars, op>>
ModulesAgree == \A s \in Slots : slots[s].k = 5 => loaded[slots[s].v[1]] = slots[s].v[2]
NothingBad == loaded[2] = 0 /\ \A m \in 4..6 : loaded[m] = 0
\* a reference denotes the same object until it is released
SlotsStay == [][op'[1] \notin {"start", "free"} => \A s \in Slots : slots[s].k # 0 => slots'[s] = slots[s]]_<<vars, op>>
\* numbers survive the way back: what arrived is what was passed
Roundtrip == \A i \in Ids : LET o == Num(Tab[i]) IN AsDouble(o) = Small(1, Tab[i][2]) /\ AsLong(o) = IntN(Trunc4(Tab[i][2]))
\* only calls of module functions and scripts change the store
StoreOwner == [][store' # store => op'[1] \in {"call", "run", "start"}]_<<vars, op>>
\* any state can be left: after a failure the next good call works (scripts that do nothing always do)
Usable == ENABLED (Run(4) /\ op' = <<"run", 4>>)
=============================================================================
