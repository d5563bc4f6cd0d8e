-------------------------- MODULE Trace_ArrayView --------------------------
EXTENDS FloatCmp, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES kind, base, ext, str, l
vs == <<kind, base, ext, str>>
AV == INSTANCE ArrayView
E == Trace[l]
P == Trace[l - 1]
THROWN == 2000000003
Bool(n) == n = 1
Pad(e, p) == AV!RowMajor([i \in 1..Len(e) |-> e[i] + p])
Do(e) == CASE e.op = "root" -> AV!Root(e.kind, 0, e.x, IF e.own # <<>> THEN e.own ELSE IF e.kind = "str" THEN Pad(e.x, e.pad) ELSE AV!RowMajor(e.x))
           [] e.op = "slice" -> AV!Slice(e.i)
           [] e.op = "section" -> AV!Section(e.x, e.y)
           [] e.op = "from" -> AV!SectionFrom(e.x)
           [] e.op = "tostr" -> AV!ToStrided
           [] e.op = "todyn" -> AV!ToDynamic
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Pack(_)
Pack(x) == IF x = <<>> THEN 0 ELSE Pack(SubSeq(x, 1, Len(x) - 1)) * 100 + x[Len(x)]
\* outcome of the six comparisons of positions p and q
Code(p, q) == (IF p < q THEN 1 ELSE 0) + (IF p <= q THEN 2 ELSE 0) + (IF p > q THEN 4 ELSE 0) + (IF p >= q THEN 8 ELSE 0) + (IF p = q THEN 16 ELSE 32)
Pairs(n, d, c, a, s, El) ==
    /\ d = [p \in 1..(n + 1) |-> [q \in 1..(n + 1) |-> q - p]]
    /\ c = [p \in 1..(n + 1) |-> [q \in 1..(n + 1) |-> Code(p, q)]]
    /\ a = [p \in 1..(n + 1) |-> [q \in 1..(n + 1) |-> IF q = n + 1 THEN -1 ELSE El[q]]]
    /\ s = [p \in 1..(n + 1) |-> [q \in 1..(n + 1) |-> IF q = n + 1 THEN -1 ELSE El[q]]]
\* b, x, s: base, extents and strides of the view now; El, Idx: its elements and indices in order
Indices(x) == [k \in 1..AV!Size(x) |-> Pack(AV!Unrank(x, k - 1))]
Obs(e, b, x, s, El, Idx) ==
       LET n == Len(El)  R == Len(x)
           Wide == [i \in 1..R |-> x[i] + 2]
           Out(k) == LET u == AV!Unrank(Wide, k - 1) IN ~AV!Inside(x, [i \in 1..R |-> u[i] - 1])
       IN
       /\ e.ext = x /\ e.ext2 = x /\ e.ext3 = x /\ e.str = s /\ e.str2 = s /\ e.st = s[1] /\ e.st2 = s[1]
       /\ e.size = n /\ e.bsize = n /\ e.total = AV!Span(x, s) /\ e.rank = R /\ e.dat = b
       /\ Bool(e.empty) = (n = 0) /\ Bool(e.bool) /\ e.sane = 1
       /\ e.br = El /\ e.par = El /\ e.at = El /\ e.fwd = El /\ e.cf = El /\ e.rev = Rev(El) /\ e.cr = Rev(El)
       /\ e.lin = [k \in 1..n |-> El[k] - b]
       /\ e.bi = Idx
       /\ e.in = [k \in 1..e.m |-> IF Out(k) THEN 0 ELSE 1] /\ e.thr = [k \in 1..e.m |-> IF Out(k) THEN 1 ELSE 0]
       /\ (R > 1 => /\ e.sl = [k \in 1..(x[1] + 2) |-> IF k <= x[1] THEN 0 ELSE 1]
                    /\ e.se = Tail(x) /\ e.ss = Tail(s))
       /\ (Bool(e.full) => /\ Pairs(n, e.vd, e.vc, e.va, e.vs, El)
                           /\ Pairs(n, e.bd, e.bc, e.ba, e.bs, Idx))
       /\ \A i \in 1..Len(e.far) : e.far[i] = 1
       /\ Bool(e.cle) /\ ~Bool(e.clb) /\ Bool(e.same)
Map2(f(_, _), a, b) == [i \in 1..Len(a) |-> f(a[i], b[i])]
Plus(x, y) == x + y
Minus(x, y) == x - y
Times(a, k) == [i \in 1..Len(a) |-> a[i] * k]
Div(a, k) == [i \in 1..Len(a) |-> AV!Quot(a[i], k)]
IndexOK(e) == /\ e.add = Map2(Plus, e.a, e.b) /\ e.add2 = e.add /\ e.sub = Map2(Minus, e.a, e.b) /\ e.sub2 = e.sub
              /\ e.mul = Times(e.a, e.k) /\ e.mul2 = e.mul /\ e.mul3 = e.mul
              /\ e.div = Div(e.a, e.k) /\ e.div2 = e.div /\ e.neg = Times(e.a, -1) /\ e.pos = e.a
              /\ Bool(e.eq) = (e.a = e.b) /\ Bool(e.ne) = (e.a # e.b)
              /\ e.at = e.a \o [i \in 1..e.out |-> THROWN] /\ e.arr = e.a /\ e.it = e.a /\ e.sw = e.b /\ e.sw2 = e.a /\ e.g0 = e.a[1]
              /\ (Len(e.a) = 1 => LET x == e.a[1] IN e.inc = <<x + 1, x + 1, x, x - 1, x - 1, x>>)
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE SeqLess(Tail(a), Tail(b))
CmpOK(e) == /\ Bool(e.eq) = (e.a = e.b) /\ Bool(e.ne) = (e.a # e.b)
            /\ Bool(e.lt) = SeqLess(e.a, e.b) /\ Bool(e.gt) = SeqLess(e.b, e.a)
            /\ Bool(e.le) = ~SeqLess(e.b, e.a) /\ Bool(e.ge) = ~SeqLess(e.a, e.b)
\* a view too large to enumerate: the offset of the element at x has x as its digits
FarOK(e) == /\ e.br = e.x /\ e.lin = e.x /\ e.it = e.x /\ e.bi = e.x /\ e.sl = e.x /\ e.sec = e.x /\ e.call = e.x
            /\ e.size = 1 /\ e.bsize = 1 /\ Bool(e.at) /\ Bool(e.last)
BoundsOK(e) == LET s == e.a = e.b IN [i \in 1..4 |-> Bool(e.r[i])] = <<s, ~s, s, ~s>> /\ e.self = <<1, 1>>
Init == kind = "none" /\ base = 0 /\ ext = <<>> /\ str = <<>> /\ l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \/ E.op = "index" /\ IndexOK(E) /\ UNCHANGED vs
           \/ E.op = "cmp" /\ CmpOK(E) /\ UNCHANGED vs
           \/ E.op = "fcmp" /\ E.r = Six(E.a, E.b) /\ UNCHANGED vs
           \/ E.op = "bounds" /\ BoundsOK(E) /\ UNCHANGED vs
           \/ E.op = "farview" /\ FarOK(E) /\ UNCHANGED vs
           \/ E.op \notin {"index", "cmp", "fcmp", "bounds", "farview"} /\ Do(E) /\ \E El \in {(AV!Elements)'}, x \in {ext'} : \E Idx \in {Indices(x)} : Obs(E, base', x, str', El, Idx)
Spec == Init /\ [][Next]_<<vs, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
