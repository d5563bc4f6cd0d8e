---------------------------- MODULE MC_InputFile ----------------------------
EXTENDS InputFile, TLC, Json
CONSTANTS MaxLen, Vals
VARIABLE op
V2 == {0, 1, 2}
V3 == {0, 1, -1}
Stmts == (Names \X Vals) \cup {<<0, 0>>}
Files == UNION {[1..k -> Stmts] : k \in 0..MaxLen}
\* statements as numbers for the replay: name * 8 + value + 2, 0 pads
Code(st) == [k \in 1..MaxLen |-> IF k > Len(st) THEN 0 ELSE 1 + st[k][1] * 8 + st[k][2] + 2]
How == {"ok", "syntax", "missing"}
HowN(h) == CASE h = "ok" -> 0 [] h = "syntax" -> 1 [] h = "missing" -> 2
MCInit == Init /\ op = <<"init">>
\* file identities: 1 and 2
Next == \/ \E o \in Objs, id \in 1..2, st \in Files : Load(o, id, "ok", st) /\ op' = <<"load", o, id, 0>> \o Code(st)
        \/ \E o \in Objs, h \in {"syntax", "missing"}, st \in {<<>>, <<<<1, 1>>>>} : Load(o, 1, h, st) /\ op' = <<"load", o, 1, HowN(h)>> \o Code(st)
        \/ \E o \in Objs, n \in Names : Read(o, n) /\ op' = <<"read", o, n>>
Spec == MCInit /\ [][Next]_<<vars, op>>
View == <<glob, file>>
EmitTransition == PrintT("T " \o ToJson(<<View, op', View'>>))
Assigned(c, n) == \E k \in 1..MaxLen : c[k] # 0 /\ (c[k] - 1) \div 8 = n
IsLoad == op'[1] = "load"
Cs == SubSeq(op', 5, 4 + MaxLen)
\* names a file does not mention, and other objects, keep their values
Frame == [][\A o \in Objs, n \in Names : glob'[o][n] # glob[o][n] => IsLoad /\ op'[2] = o /\ op'[4] = 0 /\ Assigned(Cs, n)]_<<vars, op>>
\* the file is the last one that loaded without error
FileIs == [][/\ IsLoad => (last' = 0) = (op'[4] = 0 /\ \A k \in 1..MaxLen : Cs[k] = 0 \/ Cs[k] > 8)
             /\ IsLoad /\ last' = 0 => file' = [file EXCEPT ![op'[2]] = op'[3]]
             /\ ~IsLoad \/ last' # 0 => file' = file]_<<vars, op>>
\* the last assignment to a name wins
LastWins == [][IsLoad /\ last' = 0 => \A k \in 1..MaxLen :
                 (Cs[k] # 0 /\ \A j \in k+1..MaxLen : Cs[j] = 0 \/ (Cs[j] - 1) \div 8 # (Cs[k] - 1) \div 8)
                 => glob'[op'[2]][(Cs[k] - 1) \div 8] = (Cs[k] - 1) - 8 * ((Cs[k] - 1) \div 8) - 2]_<<vars, op>>
ReadIs == [][op'[1] = "read" => /\ UNCHANGED <<glob, file>>
                                /\ (last' = THROW) = (glob[op'[2]][op'[3]] = 0) /\ (last' # THROW => last' = glob[op'[2]][op'[3]])]_<<vars, op>>
=============================================================================
