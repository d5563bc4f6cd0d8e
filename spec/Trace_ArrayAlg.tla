-------------------------- MODULE Trace_ArrayAlg --------------------------
EXTENDS FloatCmp, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES reg, unit, l
AA == INSTANCE ArrayAlg
E == Trace[l]
THROWN == 2000000003
Ops == <<"add", "sub", "mul", "div">>
Do(e) == LET o == Ops[e.o + 1] IN
         CASE e.op = "new" -> reg' = e.init /\ unit' = e.u
           [] e.op = "comparr" -> AA!CompArr(o, e.a, e.b)
           [] e.op = "compval" -> AA!CompVal(o, e.a, e.b)
           [] e.op = "compelem" -> AA!CompElem(o, e.a, e.b, e.c)
           [] e.op = "binarr" -> AA!BinArr(o, e.a, e.b, e.c)
           [] e.op = "binval" -> AA!BinVal(o, e.a, e.b, e.c)
           [] e.op = "valbin" -> AA!ValBin(o, e.a, e.c, e.b)
           [] e.op = "neg" -> AA!Neg(e.a, e.b)
           [] e.op = "copy" -> AA!Copy(e.a, e.b)
           [] e.op = "fill" -> AA!Fill(e.a, e.b)
           [] e.op = "fillelem" -> AA!FillElem(e.a, e.b, e.c)
           [] e.op = "swap" -> AA!Swap(e.a, e.b)
           [] e.op = "write" -> AA!Write(e.a, e.b, e.c)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
B(x) == IF x THEN 1 ELSE 0
Code(x, y) == B(x = y) + 2 * B(x # y) + 4 * B(AA!Less(x, y)) + 8 * B(~AA!Less(y, x)) + 16 * B(AA!Less(y, x)) + 32 * B(~AA!Less(x, y))
Const(s, v) == \A i \in 1..Len(s) : s[i] = v
\* what the arrays show after the call, through every form of access
Obs(e, r) == LET n == Len(r[1]) IN
             /\ e.r1 = r[1] /\ e.r2 = r[2]
             /\ e.rev = Rev(r[1]) /\ e.par = r[2] /\ e.size = n
             /\ (e.at # <<>> => e.at = r[1] \o [i \in 1..e.out |-> THROWN])
             /\ (e.fb # <<>> => e.fb = <<r[1][1], r[1][n]>>)
             /\ (e.cmp # -1 => e.cmp = Code(r[1], r[2]))
             /\ (e.iscon # -1 => e.iscon = B(Const(r[1], e.con)))
             /\ (e.multi # <<>> => e.multi = r[1])          \* multi-index access, in row-major order
             /\ (e.shape # <<>> => /\ e.strides = [i \in 1..Len(e.shape) |-> LET RECURSIVE p(_) p(j) == IF j > Len(e.shape) THEN 1 ELSE e.shape[j] * p(j + 1) IN p(i + 1)]
                                   /\ n = e.shape[1] * e.strides[1] /\ e.dims = Len(e.shape) /\ e.shape = e.want)
\* comparing floating point elements: zeros are equal whatever their sign, a NaN equals nothing
Floats(e) == e.r = Six(e.a, e.b) /\ e.con = B(\A i \in 1..Len(e.a) : FEq(e.a[i], e.b[1]))
\* long arrays: the same laws, sequences given by their runs
Runs(e, f(_)) == <<<<f(e.v), e.p>>, <<f(e.v2), 1>>, <<f(e.v), e.n - e.p - 1>>>>
Large(e) == LET all(q, r) == \A i \in 1..Len(q) : q[i] = r
                id(x) == x  add(x) == x + e.w  sub(x) == x - e.w  mul(x) == x * e.w
            IN /\ all(e.add, Runs(e, add)) /\ all(e.sub, Runs(e, sub)) /\ all(e.mul, Runs(e, mul)) /\ all(e.same, Runs(e, id))
               /\ all(e.con, <<<<e.w, e.n>>>>) /\ e.cmp = <<1, 0, 0, 0, 1, 1, 0, 0, 1, 1, e.n, 0, 1>>
\* integer elements and fractions q / 4: the exact result, cut off towards zero
Cut(a, b) == LET x == IF b < 0 THEN -a ELSE a  y == IF b < 0 THEN -b ELSE b IN IF x < 0 THEN -((-x) \div y) ELSE x \div y
Frac(k, a, q) == CASE k = 1 -> Cut(4 * a + q, 4) [] k = 2 -> Cut(4 * a - q, 4) [] k = 3 -> Cut(a * q, 4) [] k = 4 -> Cut(4 * a, q)
Mixed(e) == LET n == Len(e.a)  all(s, r) == \A i \in 1..Len(s) : s[i] = r IN
            /\ \A k \in 1..4 : all(e.r[k], [i \in 1..n |-> Frac(k, e.a[i], e.q)]) /\ all(e.k[k], [i \in 1..n |-> Frac(k, e.a[i], e.b[i])])
            /\ all(e.l, [i \in 1..n |-> Cut(e.q - 4 * e.a[i], 4)]) /\ all(e.c, [i \in 1..n |-> Cut(e.b[i], 4)])
\* the printed form names the elements; in their order where the form is a list
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Printed(e) == IF e.ord = 1 THEN e.r = e.a ELSE Len(e.r) = Len(e.a) /\ \A i \in 1..Len(e.a) : Count(e.r, e.a[i]) = Count(e.a, e.a[i])
Init == reg = <<>> /\ unit = 1 /\ l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE E.op = "fcmp" -> Floats(E) /\ UNCHANGED <<reg, unit>>
             [] E.op = "large" -> Large(E) /\ UNCHANGED <<reg, unit>>
             [] E.op = "mixed" -> Mixed(E) /\ UNCHANGED <<reg, unit>>
             [] E.op = "print" -> Printed(E) /\ UNCHANGED <<reg, unit>>
             [] OTHER -> Do(E) /\ \E r \in {reg'} : Obs(E, r)
Spec == Init /\ [][Next]_<<reg, unit, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
