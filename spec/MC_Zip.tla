-------------------------------- MODULE MC_Zip --------------------------------
EXTENDS Zip, TLC, Json
CONSTANTS K, L
VARIABLE op
Init == /\ cont = [c \in 1..K |-> [i \in 1..L |-> 0]] /\ pos = <<-1, -1>> /\ last = 0 /\ op = <<"init">>
I == 1..2
Next == \/ \E i \in I : Begin(i) /\ op' = <<"begin", i>>
        \/ \E i \in I : End(i) /\ op' = <<"end", i>>
        \/ \E i \in I : Inc(i) /\ op' = <<"inc", i>>
        \/ \E i, j \in I : PostInc(i, j) /\ op' = <<"post", i, j>>
        \/ \E i, j \in I : Copy(i, j) /\ op' = <<"copy", i, j>>
        \/ \E i, j \in I : Equal(i, j) /\ op' = <<"eq", i, j>>
        \/ \E i \in I : Read(i) /\ op' = <<"read", i>>
        \/ \E i \in I, c \in 1..K, v \in 0..1 : Write(i, c, v) /\ op' = <<"write", i, c, v>>
Spec == Init /\ [][Next]_<<vars, op>>
V == <<cont, pos>>
EmitTransition == PrintT("T " \o ToJson(<<V, op', V'>>))
InRange == \A i \in I : pos[i] \in -1..L
\* a write touches one element of one container
OneElement == [][op'[1] = "write" => \A c \in 1..K, p \in 1..L : cont'[c][p] # cont[c][p] => c = op'[3] /\ p = pos[op'[2]] + 1]_<<vars, op>>
OthersPure == [][op'[1] # "write" => UNCHANGED cont]_<<vars, op>>
=============================================================================
