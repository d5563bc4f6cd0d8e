----------------------------- MODULE LuaHandles -----------------------------
(* Handles to Lua values (lua_t, lua_result_t, Lua_Func_Wrapper): what they      *)
(* denote, what they keep alive, what every operation leaves behind.             *)
(* A value is 0 (nil), n > 0 (a number) or -o (the heap object o).               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NG, NO, NH, NW         \* globals, heap objects, handle slots, wrapper slots
VARIABLES glob,                  \* global variable -> value
          kind,                  \* object -> "t" table, "f" function, "" free
          fld,                   \* object -> <<field by name, field by number>>
          hand,                  \* handle slot -> sequence of denoted values, <<>>: no handle
          wrap,                  \* wrapper slot -> <<value>> or <<>>
          top,                   \* does the lua_t object still exist?
          last                   \* [thrown, ret]
vars == <<glob, kind, fld, hand, wrap, top, last>>
Objs == 1..NO
\* ---- reachability: exactly what is reachable from globals and handles is kept -------
Roots == {-glob[g] : g \in 1..NG} \cup UNION {{-hand[h][i] : i \in 1..Len(hand[h])} : h \in 1..NH}
         \cup UNION {{-wrap[w][i] : i \in 1..Len(wrap[w])} : w \in 1..NW}
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {{-fld[o][i] : i \in 1..2} \cap Objs : o \in S} IN IF T = S THEN S ELSE Close(T)
Alive == Close(Roots \cap Objs)
Done(r) == last' = [thrown |-> 0, ret |-> r]
Throws == last' = [thrown |-> 1, ret |-> 0] /\ UNCHANGED <<glob, kind, fld, hand, wrap, top>>
IsTab(v) == v < 0 /\ kind[-v] = "t"
IsFun(v) == v < 0 /\ kind[-v] = "f"
Holders == Cardinality({h \in 1..NH : hand[h] # <<>>}) + Cardinality({w \in 1..NW : wrap[w] # <<>>}) + (IF top THEN 1 ELSE 0)
Put(h, s) == hand' = [hand EXCEPT ![h] = s] /\ UNCHANGED <<glob, kind, fld, wrap, top>>
\* ---- operations of the interface --------------------------------------------------
Get(h, g) == top /\ Put(h, <<glob[g]>>) /\ Done(0)
Index(h, h2, f) == /\ Len(hand[h2]) = 1
                   /\ IF IsTab(hand[h2][1]) THEN Put(h, <<fld[-hand[h2][1]][f]>>) /\ Done(0) ELSE Throws
Copy(h, h2) == h # h2 /\ hand[h2] # <<>> /\ Put(h, hand[h2]) /\ Done(0)
Move(h, h2) == h # h2 /\ hand[h2] # <<>> /\ hand' = [hand EXCEPT ![h] = hand[h2], ![h2] = <<>>] /\ UNCHANGED <<glob, kind, fld, wrap, top>> /\ Done(0)
Del(h) == hand[h] # <<>> /\ Holders > 1 /\ Put(h, <<>>) /\ Done(0)
Both(h, g) == top /\ IF glob[g] = 0 THEN Throws ELSE Put(h, <<glob[1], glob[g]>>) /\ Done(0)
\* calling a handle: a function object returns its own number
Call(h, h2) == /\ Len(hand[h2]) = 1
               /\ IF IsFun(hand[h2][1]) THEN Put(h, <<-hand[h2][1]>>) /\ Done(0) ELSE Throws
\* calling a function that raises an error
CallErr == top /\ Throws
\* reading a handle as a number
AsNum(h) == /\ Len(hand[h]) = 1
            /\ IF hand[h][1] > 0 THEN Done(hand[h][1]) /\ UNCHANGED <<glob, kind, fld, hand, wrap, top>> ELSE Throws
AsPair(h) == /\ hand[h] # <<>>
             /\ IF Len(hand[h]) = 2 /\ hand[h][1] > 0 /\ hand[h][2] > 0
                THEN Done(hand[h][1] * 100 + hand[h][2]) /\ UNCHANGED <<glob, kind, fld, hand, wrap, top>> ELSE Throws
\* ---- scripts ------------------------------------------------------------------------
SetNum(g, n) == top /\ glob' = [glob EXCEPT ![g] = n] /\ UNCHANGED <<kind, fld, hand, wrap, top>> /\ Done(0)   \* n = 0: nil
Alias(g, g2) == top /\ g # g2 /\ glob' = [glob EXCEPT ![g] = glob[g2]] /\ UNCHANGED <<kind, fld, hand, wrap, top>> /\ Done(0)
\* an object's number may be used again once nothing refers to it
Make(g, k, o) == /\ top /\ o \in Objs \ Alive
                 /\ glob' = [glob EXCEPT ![g] = -o] /\ kind' = [kind EXCEPT ![o] = k]
                 /\ fld' = [fld EXCEPT ![o] = <<0, 0>>] /\ UNCHANGED <<hand, wrap, top>> /\ Done(0)
SetField(g, f, g2) == /\ top
                      /\ IF IsTab(glob[g]) THEN fld' = [fld EXCEPT ![-glob[g]][f] = glob[g2]] /\ UNCHANGED <<glob, kind, hand, wrap, top>> /\ Done(0)
                         ELSE Throws
BadScript == top /\ Throws
\* ---- function wrappers ------------------------------------------------------------
Wrap(w, h) == Len(hand[h]) = 1 /\ wrap' = [wrap EXCEPT ![w] = hand[h]] /\ UNCHANGED <<glob, kind, fld, hand, top>> /\ Done(0)
CallW(w) == /\ wrap[w] # <<>>
            /\ IF IsFun(wrap[w][1]) THEN Done(-wrap[w][1]) /\ UNCHANGED <<glob, kind, fld, hand, wrap, top>> ELSE Throws
CopyW(w, w2) == w # w2 /\ wrap[w2] # <<>> /\ wrap' = [wrap EXCEPT ![w] = wrap[w2]] /\ UNCHANGED <<glob, kind, fld, hand, top>> /\ Done(0)
DelW(w) == wrap[w] # <<>> /\ Holders > 1 /\ wrap' = [wrap EXCEPT ![w] = <<>>] /\ UNCHANGED <<glob, kind, fld, hand, top>> /\ Done(0)
\* ---- the interpreter object itself: handles keep the state ----------------------------
DropTop == top /\ Holders > 1 /\ top' = FALSE /\ UNCHANGED <<glob, kind, fld, hand, wrap>> /\ Done(0)
GetTop(h) == hand[h] # <<>> /\ top' = TRUE /\ UNCHANGED <<glob, kind, fld, hand, wrap>> /\ Done(0)
=============================================================================
