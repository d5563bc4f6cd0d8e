------------------------------ MODULE InputFile ------------------------------
(* input_t (ristra/initialization/input.h): Lua files loaded one after another. *)
(* A file is a sequence of statements <<name, value>>: assign the global; value *)
(* 0 removes it, v > 0 is the number v, -v the table {z = v}; name 0 is an      *)
(* error raised at that point.  how: "ok", "syntax" (does not parse), "missing". *)
EXTENDS Integers, Sequences
CONSTANTS Names, Objs
VARIABLES glob,   \* object -> name -> value
          file,   \* object -> identity of the last file loaded (0: none)
          last
vars == <<glob, file, last>>
THROW == -1
RECURSIVE Exec(_, _)
Exec(g, st) == IF st = <<>> \/ st[1][1] = 0 THEN g ELSE Exec([g EXCEPT ![st[1][1]] = st[1][2]], Tail(st))
Fails(st) == \E k \in 1..Len(st) : st[k][1] = 0
Empty == [n \in Names |-> 0]
Init == glob = [o \in Objs |-> Empty] /\ file = [o \in Objs |-> 0] /\ last = 0
\* statements before an error have taken effect; only a file that loads becomes the file
Load(o, id, how, st) ==
  IF how # "ok" THEN UNCHANGED <<glob, file>> /\ last' = THROW
  ELSE /\ glob' = [glob EXCEPT ![o] = Exec(@, st)]
       /\ IF Fails(st) THEN UNCHANGED file /\ last' = THROW
          ELSE file' = [file EXCEPT ![o] = id] /\ last' = 0
\* reading: the value or an error; looking never changes anything
Read(o, n) == UNCHANGED <<glob, file>> /\ last' = IF glob[o][n] = 0 THEN THROW ELSE glob[o][n]
=============================================================================
