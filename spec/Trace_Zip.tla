------------------------------ MODULE Trace_Zip ------------------------------
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cont, pos, last, l
Z == INSTANCE Zip
E == Trace[l]
P == Trace[l - 1]
\* --- iterator histories ----------------------------------------------------------
Do(e) == CASE e.op = "zip" -> IF e.refused = 1 THEN ~Z!Agree([i \in 1..Len(e.cs) |-> Len(e.cs[i])]) /\ UNCHANGED <<cont, pos, last>>
                              ELSE Z!Zip(e.cs)
           [] e.op = "begin" -> Z!Begin(e.a)
           [] e.op = "end" -> Z!End(e.a)
           [] e.op = "inc" -> Z!Inc(e.a)
           [] e.op = "post" -> Z!PostInc(e.a, e.b)
           [] e.op = "copy" -> Z!Copy(e.a, e.b)
           [] e.op = "eq" -> Z!Equal(e.a, e.b)
           [] e.op = "read" -> Z!Read(e.a)
           [] e.op = "write" -> Z!Write(e.a, e.b, e.c)
Iter == {"zip", "begin", "end", "inc", "post", "copy", "eq", "read", "write"}
Obs == LET e == P IN
       e.op = "zip" \/ ( /\ e.cs = cont                                   \* all containers as they are now
                         /\ (e.op = "eq" => e.eq = last /\ e.ne = 1 - last)
                         /\ (e.op = "read" => e.row = Z!Row(pos[e.a])) )
\* --- single traversals ---------------------------------------------------------------
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Srt(s) == SortSeq(s, LAMBDA x, y : x < y)
Ok(e) ==
  CASE e.op = "loop" ->      \* for (auto t : zip(...)): values seen, then every element changed
         LET n == Len(e.cs[1]) IN
         /\ e.seen = [p \in 1..n |-> [c \in 1..Len(e.cs) |-> e.cs[c][p]]]
         /\ e.after = [c \in 1..Len(e.cs) |-> [p \in 1..n |-> e.cs[c][p] * 10 + c]]
    [] e.op = "filter" -> e.r = Z!Filter(e.s, e.m, e.k)
    [] e.op = "fswap" -> LET f == Z!Filter(e.s, e.m, e.k)  g == Z!Filter(e.d, e.m, e.k)
                             x == SubSeq(f, e.ka + 1, Len(f))  y == SubSeq(g, e.kb + 1, Len(g))
                             w(q, s) == \A i \in 1..Len(q) : q[i] = s
                         IN e.ka <= Len(f) /\ e.kb <= Len(g) /\ (IF e.sw = 1 THEN w(e.ri, y) /\ w(e.rj, x) ELSE w(e.ri, x) /\ w(e.rj, y))
    [] e.op = "tups" -> \A i \in 1..Len(e.ty) : Z!ElemQ(e.ty[i], e.o, e.side, e.a[i], e.q, e.r[i])
    [] e.op = "each" -> e.order = e.vals /\ e.after = [i \in 1..Len(e.vals) |-> 2 * e.vals[i] + i]
    [] e.op = "visit" -> e.order = [i \in 1..Len(e.x) |-> <<e.x[i], e.y[i], e.z[i]>>] /\ e.after = [i \in 1..Len(e.x) |-> e.x[i] + 2 * e.y[i] - e.z[i]]
    [] e.op = "tzip" -> e.pairs = [i \in 1..Len(e.x) |-> <<e.x[i], e.y[i]>>]
    [] e.op = "ttie" -> e.x2 = e.y /\ e.y2 = e.x          \* swapped through the references
    [] e.op = "for" -> e.order = [i \in 1..e.n |-> i - 1]
    [] e.op = "tup" -> \A i \in 1..Len(e.ty) : Z!Elem(e.ty[i], e.o, e.a[i], e.b[i], e.r[i])
    [] e.op = "fill" -> e.r = [i \in 1..Len(e.r) |-> e.v]
    [] e.op = "meet" -> e.r = Z!Meet(Srt(e.x), Srt(e.y))
    [] e.op = "dups" -> e.r = SelectSeq([i \in 1..Len(e.x) |-> IF i > 1 /\ e.x[i - 1] = e.x[i] THEN -1000 ELSE e.x[i]], LAMBDA v : v # -1000)
Init == cont = <<>> /\ pos = <<-1, -1>> /\ last = 0 /\ l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF E.op \in Iter THEN Do(E) /\ Obs' ELSE Ok(E) /\ UNCHANGED <<cont, pos, last>>
Spec == Init /\ [][Next]_<<cont, pos, last, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
