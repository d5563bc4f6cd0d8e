---------------------------- MODULE MC_ArrayRef ----------------------------
EXTENDS ArrayRef, TLC, Json
CONSTANTS N, Vals
VARIABLE op
Init == mem = [i \in 1..N |-> 1] /\ off = -1 /\ len = 0 /\ refused = FALSE /\ op = <<"init">>
Next == \/ \E o \in 0..N, n \in 0..N : Make(o, n) /\ op' = <<"make", o, n>>
        \/ Clear /\ op' = <<"clear">>
        \/ \E p \in 0..N+1, n \in (0..N+1) \cup {MAX} : Sub(p, n) /\ op' = <<"sub", p, n>>
        \/ \E n \in 0..N+1 : DropFront(n) /\ op' = <<"pre", n>>
        \/ \E n \in 0..N+1 : DropBack(n) /\ op' = <<"suf", n>>
        \/ DropFront(1) /\ op' = <<"popf">>
        \/ DropBack(1) /\ op' = <<"popb">>
        \/ \E i \in 1..N, v \in Vals : Write(i, v) /\ op' = <<"write", i, v>>
Spec == Init /\ [][Next]_<<vars, op>>
V == <<mem, off, len>>
EmitTransition == PrintT("T " \o ToJson(<<V, op', V'>>))
Inside == (off >= 0 \/ (off = -1 /\ len = 0)) /\ len >= 0 /\ off + len <= N
OnlyShrinks == [][op'[1] \in {"sub", "pre", "suf", "popf", "popb"} => off' >= off /\ off' + len' <= off + len]_<<vars, op>>
RefusedPure == [][refused' => UNCHANGED <<mem, off, len>>]_<<vars, op>>
\* dropping a front and a back is a slice, in either order
DropsAreSlices == \A a, b \in 0..N : a + b <= len =>
                    LET s == SubSeq(View, a + 1, len - b) IN Len(s) = len - a - b
=============================================================================
