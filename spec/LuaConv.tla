------------------------------- MODULE LuaConv -------------------------------
(* What converting Lua values to C++ types and back must give (embed_lua.h).   *)
(* A value is [k, n, w, c, e]:                                                  *)
(*  k=0 nil; 1 integer, w = <<high 32 bits, next 16, low 16>>; 2 float,         *)
(*  w = its four 16-bit words, n = 2x if x is a small half-integer else BAD;    *)
(*  3 boolean, n; 4 string, c = bytes, n = 1 iff Lua reads it as a number;      *)
(*  5 table, e = its sequence part; 6 function; 9 an exception was thrown.      *)
(* A C++ type is [t, m, s]: t names it, m are its extents, s its element type.  *)
EXTENDS Integers, Sequences
BAD == 2000000001
Threw(r) == r.k = 9
\* --- integers -----------------------------------------------------------------
\* value of a small integer (fits 32 bits)
Small(w) == w[1] \in {0, -1} /\ (w[1] = 0 => w[2] < 32768) /\ (w[1] = -1 => w[2] >= 32768)
ToInt(w) == IF w[1] = 0 THEN w[2] * 65536 + w[3] ELSE (w[2] - 65536) * 65536 + w[3]
Fits(t, w) ==
  CASE t \in {"i64", "u64"} -> TRUE             \* unsigned 64 bits travel as the same bits
    [] t = "i32" -> Small(w)
    [] t = "u32" -> w[1] = 0
    [] t = "i16" -> Small(w) /\ ToInt(w) \in -32768..32767
    [] t = "u16" -> Small(w) /\ ToInt(w) \in 0..65535
    [] t = "i8" -> Small(w) /\ ToInt(w) \in -128..127
    [] t = "u8" -> Small(w) /\ ToInt(w) \in 0..255
Ints == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
Words(i) == <<IF i >= 0 THEN 0 ELSE -1, (i \div 65536) % 65536, i % 65536>>
\* --- scalars ------------------------------------------------------------------
Scalar(t, v, r) ==
  CASE t \in Ints ->
        (CASE v.k = 1 -> IF Fits(t, v.w) THEN r.k = 1 /\ r.w = v.w ELSE Threw(r)
           [] v.k = 2 -> IF v.n = BAD \/ v.n % 2 # 0 THEN Threw(r)
                         ELSE IF Fits(t, Words(v.n \div 2)) THEN r.k = 1 /\ r.w = Words(v.n \div 2) ELSE Threw(r)
           [] v.k = 4 -> (v.n = 1 /\ r.k = 1) \/ Threw(r)     \* Lua itself reads "12" as a number
           [] OTHER -> Threw(r))
    [] t = "f64" ->
        (CASE v.k = 2 -> r.k = 2 /\ r.w = v.w
           [] v.k = 1 -> r.k = 2 /\ (Small(v.w) /\ ToInt(v.w) \in -100000000..100000000 => r.n = 2 * ToInt(v.w))
           [] v.k = 4 -> (v.n = 1 /\ r.k = 2) \/ Threw(r)
           [] OTHER -> Threw(r))
    [] t = "f32" ->
        (CASE v.k = 2 -> r.k = 2 /\ (v.n # BAD => r.n = v.n)
           [] v.k = 1 -> r.k = 2 /\ (Small(v.w) /\ ToInt(v.w) \in -1000000..1000000 => r.n = 2 * ToInt(v.w))
           [] v.k = 4 -> (v.n = 1 /\ r.k = 2) \/ Threw(r)
           [] OTHER -> Threw(r))
    [] t = "bool" -> IF v.k = 3 THEN r.k = 3 /\ r.n = v.n ELSE Threw(r)
    [] t = "str" -> (CASE v.k = 4 -> r.k = 4 /\ r.c = v.c
                       [] v.k \in {1, 2} -> r.k = 4   \* Lua renders numbers as text
                       [] OTHER -> Threw(r))
Containers == {"vec", "arr", "mat"}
\* must reading v as T fail?  (a result may be given only if it need not)
RECURSIVE MustFail(_, _)
MustFail(T, v) ==
  IF T.t \in Containers
  THEN \/ v.k # 5
       \/ T.t = "arr" /\ Len(v.e) # T.m[1]
       \/ T.t = "mat" /\ (Len(v.e) # T.m[1] \/ \E i \in 1..Len(v.e) : v.e[i].k # 5 \/ Len(v.e[i].e) # T.m[2])
       \/ T.t # "mat" /\ \E i \in 1..Len(v.e) : MustFail(T.s[1], v.e[i])
       \/ T.t = "mat" /\ \E i \in 1..Len(v.e) : \E j \in 1..Len(v.e[i].e) : MustFail(T.s[1], v.e[i].e[j])
  ELSE CASE T.t \in Ints -> (v.k = 1 /\ ~Fits(T.t, v.w)) \/ (v.k = 2 /\ (v.n = BAD \/ v.n % 2 # 0 \/ ~Fits(T.t, Words(v.n \div 2))))
                            \/ (v.k = 4 /\ v.n = 0) \/ v.k \in {0, 3, 5, 6}
         [] T.t \in {"f64", "f32"} -> v.k \in {0, 3, 5, 6} \/ (v.k = 4 /\ v.n = 0)
         [] T.t = "bool" -> v.k # 3
         [] T.t = "str" -> v.k \notin {1, 2, 4}
\* numeric strings inside containers may be refused or read
RECURSIVE MayFail(_, _)
MayFail(T, v) ==
  IF T.t = "mat" THEN v.k = 5 /\ \E i \in 1..Len(v.e) : v.e[i].k = 5 /\ \E j \in 1..Len(v.e[i].e) : MayFail(T.s[1], v.e[i].e[j])
  ELSE IF T.t \in Containers THEN v.k = 5 /\ \E i \in 1..Len(v.e) : MayFail(T.s[1], v.e[i])
  ELSE v.k = 4 /\ T.t # "str" /\ T.t # "bool"
RECURSIVE Same(_, _, _)
Same(T, v, r) ==
  IF T.t = "mat" THEN /\ r.k = 5 /\ Len(r.e) = Len(v.e)
                      /\ \A i \in 1..Len(v.e) : Len(r.e[i].e) = Len(v.e[i].e) /\ \A j \in 1..Len(v.e[i].e) : Same(T.s[1], v.e[i].e[j], r.e[i].e[j])
  ELSE IF T.t \in Containers THEN r.k = 5 /\ Len(r.e) = Len(v.e) /\ \A i \in 1..Len(v.e) : Same(T.s[1], v.e[i], r.e[i])
  ELSE Scalar(T.t, v, r) /\ ~Threw(r)
\* the result of reading Lua value v as C++ type T
Reads(T, v, r) == IF Threw(r) THEN MustFail(T, v) \/ MayFail(T, v)
                  ELSE ~MustFail(T, v) /\ Same(T, v, r)
\* reading a list of results as a tuple of types
ReadsAll(Ts, vs, rs) == IF Len(rs) = 1 /\ Threw(rs[1])
                        THEN Len(Ts) # Len(vs) \/ \E i \in 1..Len(Ts) : MustFail(Ts[i], vs[i]) \/ MayFail(Ts[i], vs[i])
                        ELSE /\ Len(rs) = Len(Ts) /\ Len(vs) = Len(Ts)
                             /\ \A i \in 1..Len(Ts) : ~MustFail(Ts[i], vs[i]) /\ Same(Ts[i], vs[i], rs[i])
\* a C++ argument (already in this encoding) as Lua sees it: identical
Arrives(args, seen) == seen = args
=============================================================================
