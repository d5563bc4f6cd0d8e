--------------------------- MODULE MC_InputEngine ---------------------------
EXTENDS InputEngine, Json, TLC
\* A: one name under two numeric types (the Lua field feeds both)
NameA == <<1, 1>>  KindA == <<1, 1>>
DocsA == <<<<<<0, 0>>>>, <<<<1, 1>>>>, <<<<1, 2>>>>>>
\* B: two names, a string and a function
NameB == <<1, 2>>  KindB == <<2, 4>>
DocsB == <<<<<<0, 0>>, <<0, 0>>>>, <<<<2, 1>>, <<0, 0>>>>, <<<<0, 0>>, <<4, 2>>>>, <<<<2, 2>>, <<4, 1>>>>>>
\* C: one name under a string and a function type (only one can be in Lua)
KindC == <<2, 4>>
DocsC == <<<<<<0, 0>>>>, <<<<2, 1>>>>, <<<<4, 2>>>>>>
\* V: one pair and an initialization value
NameV == <<1>> KindV == <<3>>
DocsV == <<<<<<0, 0>>>>, <<<<3, 1>>>>>>
St == [tg |-> tg, reg |-> reg, fail |-> fail, called |-> called, hc |-> hc, src |-> src, iv |-> iv]
EmitTransition == PrintT("T " \o ToJson(<<View, last', View'>>))
=============================================================================
