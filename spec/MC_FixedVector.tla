--------------------------- MODULE MC_FixedVector ---------------------------
(* Exhaustive exploration; EmitTransition prints every transition of the      *)
(* model as one JSON test for the implementation.                             *)
EXTENDS FixedVector, Json
R == INSTANCE RunSeq
ASSUME R!RunLaws({1, 2}, 2, 3)
EmitTransition == PrintT("T " \o ToJson([pre |-> x, call |-> last', post |-> x']))
=============================================================================
