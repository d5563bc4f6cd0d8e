----------------------------- MODULE AtomicsImpl -----------------------------
(* How the library performs the updates: compare-and-swap loops (strong, weak  *)
(* with spurious failures), a fetch operation (cpp), a mutex around a plain    *)
(* update (lock).  Checked to implement Atomics; its behaviours are also       *)
(* schedules to be forced upon the real code (variable sched).                 *)
EXTENDS AtomOps, Sequences, FiniteSets, TLC, Json
CONSTANTS NT,          \* number of threads
          Menu,        \* operations [op, x, s] a program may contain
          Len1, LenN,  \* operations of thread 1 / of the others
          V0, MaxSpurious, KeepSched
Threads == 1..NT
VARIABLES prog, pc, step, old, neu, ret, val, mux, spur, sched
vars == <<prog, pc, step, old, neu, ret, val, mux, spur, sched>>
Seqs(n) == [1..n -> Menu]
Init == /\ prog \in {p \in [Threads -> Seqs(Len1) \cup Seqs(LenN)] :
                        Len(p[1]) = Len1 /\ (\A t \in Threads \ {1} : Len(p[t]) = LenN)
                        /\ (\A t, r \in Threads : \A i \in DOMAIN p[t], j \in DOMAIN p[r] : (p[t][i].s = "lock") = (p[r][j].s = "lock"))}
        /\ pc = [t \in Threads |-> 1] /\ step = [t \in Threads |-> "idle"]
        /\ old = [t \in Threads |-> 0] /\ neu = [t \in Threads |-> 0] /\ ret = [t \in Threads |-> 0]
        /\ val = V0 /\ mux = 0 /\ spur = 0 /\ sched = <<>>
Cur(t) == prog[t][pc[t]]
Log(c) == sched' = IF KeepSched THEN Append(sched, c) ELSE sched
Call(t) == /\ step[t] = "idle" /\ pc[t] <= Len(prog[t])
           /\ step' = [step EXCEPT ![t] = CASE Cur(t).s \in {"strong", "weak", "strong_pun", "weak_pun"} -> "load"
                                             [] Cur(t).s = "cpp" -> "fetch" [] Cur(t).s = "lock" -> "lock"]
           /\ Log(t) /\ UNCHANGED <<prog, pc, old, neu, ret, val, mux, spur>>
Compute(t, v) == /\ old' = [old EXCEPT ![t] = v]
                 /\ neu' = [neu EXCEPT ![t] = Apply(Cur(t).op, v, Cur(t).x, 0, FALSE)]
                 /\ ret' = [ret EXCEPT ![t] = Result(Cur(t).op, v, Cur(t).x, 0, FALSE)]
Load(t) == /\ step[t] = "load" /\ Compute(t, val) /\ step' = [step EXCEPT ![t] = "cas"]
           /\ Log(t) /\ UNCHANGED <<prog, pc, val, mux, spur>>
CasOk(t) == /\ step[t] = "cas" /\ val = old[t] /\ val' = neu[t]
            /\ step' = [step EXCEPT ![t] = "ret"]
            /\ Log(t) /\ UNCHANGED <<prog, pc, old, neu, ret, mux, spur>>
CasFail(t) == /\ step[t] = "cas" /\ val # old[t] /\ Compute(t, val)
              /\ Log(t) /\ UNCHANGED <<prog, pc, step, val, mux, spur>>
CasSpurious(t) == /\ step[t] = "cas" /\ Cur(t).s \in {"weak", "weak_pun"} /\ val = old[t] /\ spur < MaxSpurious
                  /\ spur' = spur + 1
                  /\ Log(t + 10) /\ UNCHANGED <<prog, pc, step, old, neu, ret, val, mux>>
Fetch(t) == /\ step[t] = "fetch" /\ Compute(t, val)
            /\ val' = Apply(Cur(t).op, val, Cur(t).x, 0, FALSE)
            /\ step' = [step EXCEPT ![t] = "ret"]
            /\ Log(t) /\ UNCHANGED <<prog, pc, mux, spur>>
Lock(t) == /\ step[t] = "lock" /\ mux = 0 /\ mux' = t /\ Compute(t, val)
           /\ step' = [step EXCEPT ![t] = "write"]
           /\ Log(t) /\ UNCHANGED <<prog, pc, val, spur>>
Write(t) == /\ step[t] = "write" /\ val' = neu[t] /\ step' = [step EXCEPT ![t] = "unlock"]
            /\ UNCHANGED <<prog, pc, old, neu, ret, mux, spur, sched>>
Unlock(t) == /\ step[t] = "unlock" /\ mux' = 0 /\ step' = [step EXCEPT ![t] = "ret"]
             /\ Log(t) /\ UNCHANGED <<prog, pc, old, neu, ret, val, spur>>
Return(t) == /\ step[t] = "ret" /\ step' = [step EXCEPT ![t] = "idle"] /\ pc' = [pc EXCEPT ![t] = @ + 1]
             /\ UNCHANGED <<prog, old, neu, ret, val, mux, spur, sched>>
\* a return happens at once after the last step, as in the harness
Urgent == {t \in Threads : step[t] \in {"ret", "write"}}
Next == \E t \in Threads :
          \/ Write(t) \/ Return(t)
          \/ Urgent = {} /\ (Call(t) \/ Load(t) \/ CasOk(t) \/ CasFail(t) \/ CasSpurious(t) \/ Fetch(t) \/ Lock(t) \/ Unlock(t))
NextFree == \E t \in Threads : Write(t) \/ Return(t) \/ Call(t) \/ Load(t) \/ CasOk(t) \/ CasFail(t) \/ CasSpurious(t) \/ Fetch(t) \/ Lock(t) \/ Unlock(t)
Done == \A t \in Threads : pc[t] > Len(prog[t])
Finish == Done /\ UNCHANGED vars
Spec == Init /\ [][NextFree \/ Finish]_vars /\ \A t \in Threads : WF_vars(Call(t) \/ Load(t) \/ CasOk(t) \/ CasFail(t) \/ Fetch(t) \/ Lock(t) \/ Write(t) \/ Unlock(t) \/ Return(t))
SpecEmit == Init /\ [][Next \/ Finish]_vars
-----------------------------------------------------------------------------
(* Refinement: what the caller can see is a behaviour of Atomics.              *)
pend == [t \in Threads |->
           IF step[t] = "idle" THEN [st |-> "idle"]
           ELSE IF step[t] \in {"ret", "unlock"} THEN [st |-> "taken", r |-> ret[t]]
           ELSE [st |-> "called", op |-> Cur(t).op, x |-> Cur(t).x]]
A == INSTANCE Atomics WITH W <- 0, U <- FALSE
Abstract == /\ A!Init(V0)
            /\ [][\E t \in Threads : \/ \E m \in Menu : A!Call(t, m.op, m.x)
                                     \/ A!Take(t) \/ \E r \in {ret[t]} : A!Return(t, r)]_<<val, pend>>
Terminates == <>Done
MutexOk == \A t \in Threads : step[t] \in {"write", "unlock"} => mux = t
-----------------------------------------------------------------------------
EmitSchedule == ~Done \/ PrintT("S " \o ToJson([prog |-> prog, sched |-> sched, val |-> val]))
\* menus
CasMenu == {[op |-> "add", x |-> 3, s |-> "strong"], [op |-> "mul", x |-> 2, s |-> "weak"], [op |-> "postinc", x |-> 0, s |-> "cpp"]}
PunMenu == {[op |-> "add", x |-> 3, s |-> "strong_pun"], [op |-> "mul", x |-> 2, s |-> "weak_pun"], [op |-> "sub", x |-> 1, s |-> "cpp"]}
LockMenu == {[op |-> "add", x |-> 3, s |-> "lock"], [op |-> "mul", x |-> 2, s |-> "lock"], [op |-> "postdec", x |-> 0, s |-> "lock"]}
AllMenu == CasMenu \cup LockMenu
=============================================================================
