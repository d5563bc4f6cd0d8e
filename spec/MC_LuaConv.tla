------------------------------ MODULE MC_LuaConv ------------------------------
(* The conversion rules over a small universe of Lua values, C++ types and        *)
(* results: each request has exactly one outcome, and nothing is fabricated.      *)
EXTENDS LuaConv, TLC
V(k, n, w, c, e) == [k |-> k, n |-> n, w |-> w, c |-> c, e |-> e]
I(i) == V(1, 0, Words(i), <<>>, <<>>)
F2(n) == V(2, n, <<n, 0, 0, 0>>, <<>>, <<>>)
Bo(b) == V(3, b, <<>>, <<>>, <<>>)
S(c, num) == V(4, num, <<>>, c, <<>>)
T(e) == V(5, 0, <<>>, <<>>, e)
Threwn == V(9, 0, <<>>, <<>>, <<>>)
Scalars == {I(i) : i \in {-32769, -129, -1, 0, 1, 127, 128, 255, 256, 32768, 65536, 70000}}
           \cup {F2(n) : n \in {0, 1, 2, -2, 256, 600}} \cup {V(2, BAD, <<9, 9, 9, 9>>, <<>>, <<>>)}
           \cup {Bo(0), Bo(1), S(<<>>, 0), S(<<97, 0, 98>>, 0), S(<<49>>, 1), V(0, 0, <<>>, <<>>, <<>>), V(6, 0, <<>>, <<>>, <<>>)}
Few == {I(1), I(300), S(<<97>>, 0)}
Rows == {T(<<>>)} \cup {T(<<a>>) : a \in Few} \cup {T(<<a, b>>) : a, b \in Few}
Tabs == Rows \cup {T(<<a, b>>) : a, b \in Rows}
Values == Scalars \cup Tabs
ST == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f64", "f32", "bool", "str"}
Ty(t, m, s) == [t |-> t, m |-> m, s |-> s]
STypes == {Ty(t, <<>>, <<>>) : t \in ST}
Sub == {Ty(t, <<>>, <<>>) : t \in {"u8", "i32", "f64", "str"}}
CTypes == {Ty("vec", <<>>, <<s>>) : s \in Sub} \cup {Ty("arr", <<n>>, <<s>>) : n \in 1..2, s \in Sub}
          \cup {Ty("mat", <<m, n>>, <<s>>) : m, n \in 1..2, s \in {Ty("i8", <<>>, <<>>), Ty("str", <<>>, <<>>)}}
Types == STypes \cup CTypes
VARIABLES ty, v, r
Init == ty \in Types /\ v \in Values /\ r \in Scalars \cup {Threwn} \cup Rows
Spec == Init /\ [][FALSE]_<<ty, v, r>>
\* a mismatching request is never answered with a value
NothingFabricated == MustFail(ty, v) => (Reads(ty, v, r) <=> Threw(r))
\* a good request is never refused
NothingRefused == ~MustFail(ty, v) /\ ~MayFail(ty, v) => (Reads(ty, v, r) => ~Threw(r))
\* a value of the requested kind comes back as itself
Identity == ~MustFail(ty, v) /\ v.k = 1 /\ ty.t \in Ints /\ Reads(ty, v, r) => r = v \/ r.w = v.w
\* lengths never change
SameLength == Reads(ty, v, r) /\ r.k = 5 => v.k = 5 /\ Len(r.e) = Len(v.e)
=============================================================================
