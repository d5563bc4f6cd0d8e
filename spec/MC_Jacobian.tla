---------------------------- MODULE MC_Jacobian ----------------------------
(* The Jacobian of a linear map of the nodes is that map wherever the
   derivatives reproduce the coordinates, and its determinant multiplies. *)
EXTENDS Matrix, TLC
CONSTANTS Vals, Dim
VARIABLES A, B
vars == <<A, B>>
V2 == {0 - 1, 0, 1, 2}
V3 == {0, 1, 0 - 1}
Mats == [1..Dim -> [1..Dim -> Vals]]
\* vertices as rows, partials as rows
Jac(v, g) == Mul(Transpose(g), v)
RefV == [i \in 1..(Dim + 1) |-> [j \in 1..Dim |-> IF i = j THEN 1 ELSE 0]]     \* simplex: N_i = x_i, N_0 = 1 - sum
RefG == [i \in 1..(Dim + 1) |-> [j \in 1..Dim |-> IF i = Dim + 1 THEN 0 - 1 ELSE IF i = j THEN 1 ELSE 0]]
Init == A \in {[i \in 1..Dim |-> [j \in 1..Dim |-> IF i = 1 THEN r[j] ELSE 0]] : r \in [1..Dim -> Vals]} /\ B = <<>>
Next == B = <<>> /\ \E r \in [2..Dim -> [1..Dim -> Vals]] : A' = [i \in 1..Dim |-> IF i = 1 THEN A[1] ELSE r[i]] /\ B' = <<1>>
Spec == Init /\ [][Next]_vars
Image == Mul(RefV, Transpose(A))         \* vertices moved by A
Affine == B # <<>> => Jac(Image, RefG) = Transpose(A)
DetT == B # <<>> => Det(Transpose(A)) = Det(A)
Inverse == B # <<>> => Mul(A, Adj(A)) = ScaleM(Det(A), Ident(Dim)) /\ Mul(Adj(A), A) = ScaleM(Det(A), Ident(Dim))
=============================================================================
