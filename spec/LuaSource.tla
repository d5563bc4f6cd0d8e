------------------------------ MODULE LuaSource ------------------------------
(* lua_source_t (ristra/initialization/input_source.h) over an arbitrary Lua    *)
(* document.  Names are numbers; 0 is "base_state" (the globals).  A document   *)
(* is a sequence of tables, doc[1] the globals; a table has fields f[name]      *)
(* (0 absent, v > 0 the number v, -n the table n) and a sequence part s.        *)
EXTENDS Integers, Sequences
CONSTANT Names
VARIABLES doc, where,   \* name -> <<parent, Lua name>>, <<>>: not registered
          tab,          \* name -> table loaded under it, 0: none, -1: not a table
          last
vars == <<doc, where, tab, last>>
THROW == -1
FOUND == 1  ABSENT == 0
Key(k, lk) == IF lk = 0 THEN k ELSE lk
\* what a value registered as w denotes now: -99 lookup impossible, 0 absent, else a field
Denotes(w) == IF w = <<>> THEN -99
              ELSE IF w[1] \notin Names \/ tab[w[1]] <= 0 THEN -99
              ELSE doc[tab[w[1]]].f[w[2]]
Result(ret, val, seq) == last' = [ret |-> ret, val |-> val, seq |-> seq]
Same == UNCHANGED <<doc, where, tab>>

\* register_value: replaces a former definition (also its Lua name) and says so
RegisterValue(k, t, lk) ==
  /\ where' = [where EXCEPT ![k] = <<t, Key(k, lk)>>] /\ UNCHANGED <<doc, tab>>
  /\ Result(IF where[k] # <<>> THEN 1 ELSE 0, 0, <<>>)
Target(p, f) == IF p = 0 THEN doc[1].f[f]
                ELSE IF tab[p] <= 0 THEN 0 ELSE doc[tab[p]].f[f]
RegisterTable(t, p, lk) ==
  LET n == Target(p, Key(t, lk)) IN
  /\ doc' = doc
  /\ IF n = 0 THEN /\ tab' = tab /\ Result(THROW, 0, <<>>)      \* no such table: an error
                   /\ \/ where' = where \/ where' = [where EXCEPT ![t] = <<p, Key(t, lk)>>]
     ELSE /\ tab' = [tab EXCEPT ![t] = IF n < 0 THEN -n ELSE -1]
          /\ where' = [where EXCEPT ![t] = <<p, Key(t, lk)>>]
          /\ Result(IF where[t] # <<>> THEN 1 ELSE 0, 0, <<>>)
\* reading as a number / as a list; val is the caller's variable (0: left untouched)
GetNum(k) == /\ Same
             /\ LET d == Denotes(where[k]) IN
                CASE d = -99 -> Result(THROW, 0, <<>>)
                  [] d = 0 -> Result(ABSENT, 0, <<>>)
                  [] d < 0 /\ d # -99 -> Result(THROW, 0, <<>>)    \* a table is not a number
                  [] d > 0 -> Result(FOUND, d, <<>>)
GetSeq(k) == /\ Same
             /\ LET d == Denotes(where[k]) IN
                CASE d = -99 -> Result(THROW, 0, <<>>)
                  [] d = 0 -> Result(ABSENT, 0, <<>>)
                  [] d > 0 -> Result(THROW, 0, <<>>)
                  [] d < 0 /\ d # -99 -> Result(FOUND, 0, doc[-d].s)
GetSize(k) == /\ Same
              /\ LET d == Denotes(where[k]) IN
                 /\ d # 0            \* the size of an absent field is not described
                 /\ Result(IF d = -99 THEN THROW ELSE FOUND, IF d > 0 \/ d = -99 THEN 0 ELSE Len(doc[-d].s), <<>>)
GetTable(t) == /\ Same
               /\ CASE tab[t] = 0 -> Result(THROW, 0, <<>>)
                    [] tab[t] = -1 -> Result(FOUND, -1, <<>>)
                    [] tab[t] > 0 -> Result(FOUND, 0, doc[tab[t]].s)
=============================================================================
