---------------------------- MODULE MC_ArrayAlg ----------------------------
EXTENDS ArrayAlg, TLC, Json
CONSTANTS Size, Vals, Bound, Units
VARIABLE op
V3 == {-2, 1, 3}
V2 == {-2, 1}
V == <<reg, unit>>
Ops == {"add", "sub", "mul", "div"}
O == [add |-> 0, sub |-> 1, mul |-> 2, div |-> 3]
R == 1..2
Init == unit \in Units /\ reg = [r \in R |-> [i \in 1..Size |-> 1]] /\ op = <<"init">>
Small == \A r \in R, i \in 1..Size : Abs(reg'[r][i]) <= Bound
\* emit only exact divisions: the same transitions then apply to floating point arrays
Act == \/ \E o \in Ops, r, s \in R : (\A i \in Idx : Exact(o, reg[r][i], reg[s][i])) /\ CompArr(o, r, s) /\ op' = <<"comparr", O[o], r, s>>
       \/ \E o \in Ops, r \in R, v \in Vals : (\A i \in Idx : Exact(o, reg[r][i], v)) /\ CompVal(o, r, v) /\ op' = <<"compval", O[o], r, v>>
       \/ \E o \in Ops, r, s \in R, i \in Idx : (\A k \in Idx : Exact(o, reg[r][k], reg[s][i])) /\ CompElem(o, r, s, i) /\ op' = <<"compelem", O[o], r, s, i>>
       \/ \E o \in Ops, t, r, s \in R : (\A i \in Idx : Exact(o, reg[r][i], reg[s][i])) /\ BinArr(o, t, r, s) /\ op' = <<"binarr", O[o], t, r, s>>
       \/ \E o \in Ops, t, r \in R, v \in Vals : (\A i \in Idx : Exact(o, reg[r][i], v)) /\ BinVal(o, t, r, v) /\ op' = <<"binval", O[o], t, r, v>>
       \/ \E o \in Ops, t, r \in R, v \in Vals : (\A i \in Idx : Exact(o, v, reg[r][i])) /\ ValBin(o, t, v, r) /\ op' = <<"valbin", O[o], t, r, v>>
       \/ \E t, r \in R : Neg(t, r) /\ op' = <<"neg", 0, t, r>>
       \/ \E t, r \in R : Copy(t, r) /\ op' = <<"copy", 0, t, r>>
       \/ \E t \in R, v \in Vals : Fill(t, v) /\ op' = <<"fill", 0, t, v>>
       \/ \E t, r \in R, i \in Idx : FillElem(t, r, i) /\ op' = <<"fillelem", 0, t, r, i>>
       \/ \E r, s \in R : Swap(r, s) /\ op' = <<"swap", 0, r, s>>
       \/ \E r \in R, i \in Idx, v \in Vals : Write(r, i, v) /\ op' = <<"write", 0, r, i, v>>
Next == Act /\ Small
Spec == Init /\ [][Next]_<<reg, unit, op>>
EmitTransition == PrintT("T " \o ToJson(<<reg, op', reg'>>))
\* laws: adding an array to itself doubles it, subtracting clears it; scaling by an own element is uniform
SelfOps == [][/\ (op'[1] = "comparr" /\ op'[3] = op'[4]) =>
                   (CASE op'[2] = 0 -> reg'[op'[3]] = Map("mul", reg[op'[3]], All(2 * unit))
                      [] op'[2] = 1 -> reg'[op'[3]] = All(0)
                      [] op'[2] = 2 -> \A i \in Idx : reg'[op'[3]][i] >= 0
                      [] op'[2] = 3 -> reg'[op'[3]] = All(unit))
              /\ (op'[1] = "compelem" /\ op'[2] = 2) => \A i, j \in Idx : reg'[op'[3]][i] * reg[op'[3]][j] = reg'[op'[3]][j] * reg[op'[3]][i]]_<<reg, unit, op>>
\* only the target changes
Others == [][\A r \in R : r \notin {op'[3]} \cup (IF op'[1] = "swap" THEN {op'[4]} ELSE {}) => reg'[r] = reg[r]]_<<reg, unit, op>>
=============================================================================
