---------------------------- MODULE MC_LuaHandles ----------------------------
EXTENDS LuaHandles, TLC, Json
CONSTANTS Nums, Flds
VARIABLE op
Hs == 1..NH  Gs == 1..NG  Ws == 1..NW
Init == /\ glob = [g \in Gs |-> 0] /\ kind = [o \in Objs |-> ""] /\ fld = [o \in Objs |-> <<0, 0>>]
        /\ hand = [h \in Hs |-> <<>>] /\ wrap = [w \in Ws |-> <<>>] /\ top = TRUE
        /\ last = [thrown |-> 0, ret |-> 0] /\ op = <<"init">>
Free == IF Objs \ Alive = {} THEN {} ELSE {CHOOSE o \in Objs \ Alive : \A q \in Objs \ Alive : o <= q}
\* free objects are forgotten, so that the state space is that of the reachable heap
Tidy == \A o \in Objs : o \notin Alive => kind[o] = "" /\ fld[o] = <<0, 0>>
Next == \/ \E h \in Hs, g \in Gs : Get(h, g) /\ op' = <<"get", h, g>>
        \/ \E h, k \in Hs, f \in Flds : Index(h, k, f) /\ op' = <<"idx", h, k, f>>
        \/ \E h, k \in Hs : Copy(h, k) /\ op' = <<"copy", h, k>>
        \/ \E h, k \in Hs : Move(h, k) /\ op' = <<"move", h, k>>
        \/ \E h \in Hs : Del(h) /\ op' = <<"del", h>>
        \/ \E h \in Hs, g \in Gs : Both(h, g) /\ op' = <<"both", h, g>>
        \/ \E h, k \in Hs : Call(h, k) /\ op' = <<"call", h, k>>
        \/ CallErr /\ op' = <<"err">>
        \/ \E h \in Hs : AsNum(h) /\ op' = <<"num", h>>
        \/ \E h \in Hs : AsPair(h) /\ op' = <<"pair", h>>
        \/ \E g \in Gs, n \in Nums : SetNum(g, n) /\ op' = <<"set", g, n>>
        \/ \E g, k \in Gs : Alias(g, k) /\ op' = <<"alias", g, k>>
        \/ \E g \in Gs, k \in {"t", "f"}, o \in Free : Make(g, k, o) /\ op' = <<IF k = "t" THEN "mkt" ELSE "mkf", g, o>>
        \/ \E g, k \in Gs, f \in Flds : SetField(g, f, k) /\ op' = <<"fld", g, f, k>>
        \/ BadScript /\ op' = <<"bad">>
        \/ \E w \in Ws, h \in Hs : Wrap(w, h) /\ op' = <<"wrap", w, h>>
        \/ \E w \in Ws : CallW(w) /\ op' = <<"callw", w>>
        \/ \E w, v \in Ws : CopyW(w, v) /\ op' = <<"copyw", w, v>>
        \/ \E w \in Ws : DelW(w) /\ op' = <<"delw", w>>
        \/ DropTop /\ op' = <<"drop">>
        \/ \E h \in Hs : GetTop(h) /\ op' = <<"top", h>>
Spec == Init /\ [][Next]_<<vars, op>>
\* objects nothing refers to look the same as never made ones
View == <<glob, [o \in Objs |-> IF o \in Alive THEN <<kind[o], fld[o]>> ELSE <<"", <<0, 0>>>>], hand, wrap, top>>
EmitTransition == PrintT("T " \o ToJson(<<View, op', View'>>))
\* ---- C12 on the model ------------------------------------------------------------
\* a handle's meaning changes only by an operation on that handle
Stable == [][\A h \in Hs : hand'[h] # hand[h] => (op'[1] \in {"get", "idx", "copy", "both", "call", "del"} /\ op'[2] = h)
                                                 \/ (op'[1] = "move" /\ h \in {op'[2], op'[3]})]_<<vars, op>>
\* a denoted object is never reused or retyped while something denotes it
Kept == [][\A o \in Alive : kind'[o] = kind[o]]_<<vars, op>>
FailuresPure == [][last'.thrown = 1 => UNCHANGED <<glob, kind, fld, hand, wrap, top>>]_<<vars, op>>
Typed == \A o \in Alive : kind[o] \in {"t", "f"}
=============================================================================
