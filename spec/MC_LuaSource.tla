---------------------------- MODULE MC_LuaSource ----------------------------
(* Three names over a fixed nested document: the laws of C09.                  *)
EXTENDS LuaSource, TLC, Json
VARIABLE op
D == << [f |-> <<-2, 7, 0>>, s |-> <<>>],          \* globals: table 1, number 2
        [f |-> <<-3, -4, 5>>, s |-> <<8>>],
        [f |-> <<0, 6, -2>>, s |-> <<>>],
        [f |-> <<9, 0, 0>>, s |-> <<1, 2>>] >>
Init == /\ doc = D /\ where = [n \in Names |-> <<>>] /\ tab = [n \in Names |-> 0]
        /\ last = [ret |-> 0, val |-> 0, seq |-> <<>>] /\ op = <<"init">>
Next == \/ \E k \in Names, t \in Names, l \in {0} \cup Names : RegisterValue(k, t, l) /\ op' = <<"value", k, t, l>>
        \/ \E k \in Names, p \in {0} \cup Names, l \in {0} \cup Names : RegisterTable(k, p, l) /\ op' = <<"table", k, p, l>>
        \/ \E k \in Names : GetNum(k) /\ op' = <<"num", k>>
        \/ \E k \in Names : GetSeq(k) /\ op' = <<"seq", k>>
        \/ \E k \in Names : GetSize(k) /\ op' = <<"size", k>>
        \/ \E k \in Names : GetTable(k) /\ op' = <<"tab", k>>
Spec == Init /\ [][Next]_<<vars, op>>
View == <<where, tab>>
EmitTransition == PrintT("T " \o ToJson(<<View, op', View'>>))
LookupsPure == [][op'[1] \in {"num", "seq", "size", "tab"} => UNCHANGED <<doc, where, tab>>]_<<vars, op>>
SaysReplaced == [][op'[1] \in {"value", "table"} /\ last'.ret # THROW =>
                   (last'.ret = 1) = (where[op'[2]] # <<>>)]_<<vars, op>>
OthersKept == [][op'[1] \in {"value", "table"} =>
                 \A n \in Names \ {op'[2]} : where'[n] = where[n] /\ tab'[n] = tab[n]]_<<vars, op>>
TakesEffect == [][op'[1] = "table" /\ last'.ret # THROW =>
                  tab'[op'[2]] = (LET n == Target(op'[3], Key(op'[2], op'[4])) IN IF n < 0 THEN -n ELSE -1)]_<<vars, op>>
UnregisteredThrows == [][op'[1] \in {"num", "seq", "size"} /\ where[op'[2]] = <<>> => last'.ret = THROW]_<<vars, op>>
=============================================================================
