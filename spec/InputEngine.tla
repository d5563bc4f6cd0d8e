----------------------------- MODULE InputEngine -----------------------------
(* ristra/initialization: input_engine_t, hard_coded_source_t, init_value_t.   *)
(* A "pair" is one target name under one value type; everything the engine     *)
(* keeps is kept per pair.  Values are positive integers, 0 means "none".      *)
(* The registries (targets, values, failures, hard-coded defaults) are shared  *)
(* by all engines of a process; the sources belong to one engine.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Pairs,         \* 1..n
          NameOf, KindOf,\* pair -> name index, pair -> kind of Lua value it reads
          Vals, Engines, Docs, IVs, Judge   \* Judge: set of validators used
VARIABLES tg,     \* registered pairs
          reg,    \* pair -> resolved value
          fail,   \* pairs that failed in the last resolution
          called, \* has a resolution taken place since the last clear
          hc,     \* pair -> hard-coded default
          src,    \* engine -> [hard: is a hard-coded source registered, lua: document]
          iv,     \* i -> [p: pair or 0, j: validator, st: status]
          last    \* the call that led here: [op, a, b, c, ret]
vars == <<tg, reg, fail, called, hc, src, iv, last>>

THROW == -1
NoDoc == <<>>            \* no Lua source
\* a document gives for every name <<kind, value>>, kind 0: field absent
Field(d, p) == d[NameOf[p]]
HasLua(e) == src[e].lua # NoDoc
InLua(e, p) == HasLua(e) /\ Field(src[e].lua, p)[1] # 0
\* a field of the wrong Lua type is an error and not described here
Readable(e, p) == HasLua(e) => Field(src[e].lua, p)[1] \in {0, KindOf[p]}
\* the value the sources of engine e give to a pair now (0: none)
Lookup(e, p) == IF InLua(e, p) THEN Field(src[e].lua, p)[2]
                ELSE IF src[e].hard THEN hc[p] ELSE 0
Accepts(j, v) == CASE j = 0 -> TRUE [] j = 1 -> v % 2 = 1 [] j = 2 -> v % 2 = 0 [] j = 3 -> FALSE
B(x) == IF x THEN 1 ELSE 0
Call(op, a, b, c, ret) == last' = [op |-> op, a |-> a, b |-> b, c |-> c, ret |-> ret]

\* init_val_status_t
Registered == 1 Failed == 2 Initialized == 3 Invalid == 4 Valid == 5
NoIV == [p |-> 0, j |-> 0, st |-> 0]

Init == /\ tg = {} /\ reg = [p \in Pairs |-> 0] /\ fail = {} /\ called = FALSE
        /\ hc = [p \in Pairs |-> 0]
        /\ src = [e \in Engines |-> [hard |-> FALSE, lua |-> NoDoc]]
        /\ iv = [i \in IVs |-> NoIV]
        /\ last = [op |-> "init", a |-> 0, b |-> 0, c |-> 0, ret |-> 0]

Reg(p) == /\ tg' = tg \cup {p} /\ UNCHANGED <<reg, fail, called, hc, src, iv>>
               /\ Call("register", p, 0, 0, 0)
SetHC(p, v) == /\ hc' = [hc EXCEPT ![p] = v] /\ UNCHANGED <<tg, reg, fail, called, src, iv>>
               /\ Call("sethc", p, v, 0, 0)
ClearHC(ps) == /\ hc' = [p \in Pairs |-> IF p \in ps THEN 0 ELSE hc[p]]
               /\ UNCHANGED <<tg, reg, fail, called, src, iv>>
UseHC(e, b) == /\ src' = [src EXCEPT ![e].hard = b] /\ UNCHANGED <<tg, reg, fail, called, hc, iv>>
               /\ Call("usehc", e, B(b), 0, 0)
UseLua(e, d) == /\ src' = [src EXCEPT ![e].lua = d] /\ UNCHANGED <<tg, reg, fail, called, hc, iv>>
\* every registered target is looked up afresh and independently
Resolve(e) ==
  /\ \A p \in tg : Readable(e, p)
  /\ reg' = [p \in Pairs |-> IF p \in tg THEN Lookup(e, p) ELSE reg[p]]
  /\ fail' = {p \in tg : Lookup(e, p) = 0}
  /\ called' = TRUE /\ UNCHANGED <<tg, hc, src, iv>>
  /\ Call("resolve", e, 0, 0, B(\A p \in tg : Lookup(e, p) # 0))
\* on-demand lookup: same precedence, does not count as a resolution
Instant(e, p) ==
  /\ Readable(e, p)
  /\ reg' = IF Lookup(e, p) = 0 THEN reg ELSE [reg EXCEPT ![p] = Lookup(e, p)]
  /\ UNCHANGED <<tg, fail, called, hc, src, iv>>
  /\ Call("instant", e, p, 0, IF Lookup(e, p) = 0 THEN THROW ELSE Lookup(e, p))
Get(p) == /\ UNCHANGED <<tg, reg, fail, called, hc, src, iv>>
          /\ Call("get", p, 0, 0, IF reg[p] = 0 THEN THROW ELSE reg[p])
IsResolved(p) == called /\ reg[p] # 0
Resolved(p) == /\ UNCHANGED <<tg, reg, fail, called, hc, src, iv>>
               /\ Call("resolved", p, 0, 0, B(IsResolved(p)))
HasSource(e) == /\ UNCHANGED <<tg, reg, fail, called, hc, src, iv>>
                /\ Call("has", e, 0, 0, B(src[e].hard) + 2 * B(HasLua(e)))
Clear == /\ tg' = {} /\ reg' = [p \in Pairs |-> 0] /\ fail' = {} /\ called' = FALSE
         /\ UNCHANGED <<hc, src, iv>> /\ Call("clear", 0, 0, 0, 0)

\* --- initialization values ----------------------------------------------------
NewIV(i, p, j) == /\ iv' = [iv EXCEPT ![i] = [p |-> p, j |-> j, st |-> Registered]]
                  /\ tg' = tg \cup {p} /\ UNCHANGED <<reg, fail, called, hc, src>>
                  /\ Call("newiv", i, p, j, 0)
Judged(i) == iv[i].st \in {Valid, Invalid}
Ok(i) == IsResolved(iv[i].p) /\ Accepts(iv[i].j, reg[iv[i].p])
IVGet(i) ==
  /\ iv[i].p # 0
  /\ iv' = [iv EXCEPT ![i].st = IF ~IsResolved(iv[i].p) THEN Failed
                                ELSE IF Ok(i) THEN Valid ELSE Invalid]
  /\ UNCHANGED <<tg, reg, fail, called, hc, src>>
  /\ Call("ivget", i, 0, 0, IF Ok(i) THEN reg[iv[i].p] ELSE THROW)
\* asking never loses an earlier verdict
IVResolved(i) ==
  /\ iv[i].p # 0
  /\ iv' = [iv EXCEPT ![i].st = IF IsResolved(iv[i].p) /\ ~Judged(i) THEN Initialized ELSE iv[i].st]
  /\ UNCHANGED <<tg, reg, fail, called, hc, src>>
  /\ Call("ivresolved", i, 0, 0, B(IsResolved(iv[i].p)))
IVValid(i) ==
  /\ iv[i].p # 0
  /\ iv' = [iv EXCEPT ![i].st = IF ~IsResolved(iv[i].p) THEN iv[i].st
                                ELSE IF Ok(i) THEN Valid ELSE Invalid]
  /\ UNCHANGED <<tg, reg, fail, called, hc, src>>
  /\ Call("ivvalid", i, 0, 0, B(Ok(i)))

Next == \/ \E p \in Pairs : Reg(p) \/ Get(p) \/ Resolved(p)
        \/ \E p \in Pairs, v \in Vals : SetHC(p, v)
        \/ ClearHC(Pairs) /\ Call("clearhc", 0, 0, 0, 0)
        \/ \E e \in Engines : Resolve(e) \/ HasSource(e) \/ (\E b \in BOOLEAN : UseHC(e, b))
        \/ \E e \in Engines, k \in 0..Len(Docs) :
              UseLua(e, IF k = 0 THEN NoDoc ELSE Docs[k]) /\ Call("uselua", e, k, 0, 0)
        \/ \E e \in Engines, p \in Pairs : Instant(e, p)
        \/ Clear
        \/ \E i \in IVs : IVGet(i) \/ IVResolved(i) \/ IVValid(i)
        \/ \E i \in IVs, p \in Pairs, j \in Judge : NewIV(i, p, j)
Spec == Init /\ [][Next]_vars
View == <<tg, reg, fail, called, hc, src, iv>>

\* --- properties (of steps: the view hides the last call) ------------------------
\* C05: a resolution gives every target its source's value or marks it failed
Precedence == [][last'.op = "resolve" =>
  LET e == last'.a IN
  /\ \A p \in tg' : /\ reg'[p] = (IF HasLua(e) /\ Field(src[e].lua, p)[1] # 0 THEN Field(src[e].lua, p)[2]
                                    ELSE IF src[e].hard /\ hc[p] # 0 THEN hc[p] ELSE 0)
                     /\ (p \in fail') = (reg'[p] = 0)
  /\ (last'.ret = 1) = (fail' = {})]_vars
\* C06: resolving again with unchanged sources changes nothing
Settled(e) == called /\ \A p \in tg : reg[p] = Lookup(e, p) /\ (p \in fail) = (reg[p] = 0)
Repeatable == [][last'.op = "resolve" =>
                   /\ called' /\ \A p \in tg' : reg'[p] = Lookup(last'.a, p) /\ (p \in fail') = (reg'[p] = 0)
                   /\ Settled(last'.a) /\ fail \subseteq tg => UNCHANGED <<reg, fail, called>>]_vars
ReadOnly == [][last'.op \in {"get", "resolved", "resolve", "instant", "ivget", "ivresolved", "ivvalid"} =>
               UNCHANGED <<hc, src, tg>>]_vars
ReadPure == [][last'.op \in {"get", "resolved", "ivget", "ivresolved", "ivvalid"} => UNCHANGED <<reg, fail, called>>]_vars
\* C07: a call about one pair leaves the others alone
Frame == [][/\ last'.op \in {"register", "sethc"} =>
                 \A p \in Pairs \ {last'.a} : reg'[p] = reg[p] /\ hc'[p] = hc[p] /\ (p \in tg') = (p \in tg)
            /\ last'.op = "instant" => \A p \in Pairs \ {last'.b} : reg'[p] = reg[p]]_vars
Cleared == [][last'.op = "clear" => tg' = {} /\ fail' = {} /\ ~called' /\ \A p \in Pairs : reg'[p] = 0]_vars
ReadThrows == [][last'.op = "get" => (last'.ret = THROW) = (reg[last'.a] = 0)]_vars
\* C08
HandedOut == [][last'.op = "ivget" =>
  IF last'.ret = THROW THEN ~Ok(last'.a)
  ELSE Ok(last'.a) /\ last'.ret = reg[iv[last'.a].p] /\ iv'[last'.a].st = Valid]_vars
Agree == [][/\ last'.op = "ivvalid" => (last'.ret = 1) = Ok(last'.a) /\ (last'.ret = 1 => iv'[last'.a].st = Valid)
            /\ last'.op = "ivresolved" => (last'.ret = 1) = IsResolved(iv[last'.a].p)]_vars
VerdictKept == [][\A i \in IVs : Judged(i) /\ last'.op \in {"ivresolved", "get", "resolve", "instant"} => iv'[i].st = iv[i].st]_vars
FailedAreTargets == fail \subseteq tg
TypeOK == /\ tg \subseteq Pairs /\ fail \subseteq Pairs
          /\ \A p \in Pairs : reg[p] \in Vals \cup {0} /\ hc[p] \in Vals \cup {0}
=============================================================================
