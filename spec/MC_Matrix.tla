------------------------------ MODULE MC_Matrix ------------------------------
(* the laws of linear algebra, checked for all small matrices *)
EXTENDS Matrix
CONSTANTS D2, D3       \* largest element of 2x2 pairs; of 3x3 matrices
VARIABLES A, B
S2 == 0 - D2 .. D2
S3 == 0 - D3 .. D3
R2 == {<<a, b>> : a \in S2, b \in S2}
R3 == {<<a, b, c>> : a \in S3, b \in S3, c \in S3}
Fixed3 == {<<<<1, 2, 0>>, <<0, 1, 0 - 1>>, <<2, 0, 1>>>>, <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>>}
Fixed4 == {<<<<1, 2, 0, 1>>, <<0, 1, 3, 0>>, <<2, 0, 1, 1>>, <<0, 0 - 1, 2, 1>>>>, <<<<0, 1, 0, 0>>, <<1, 0, 0, 0>>, <<0, 0, 2, 0>>, <<0, 0, 0, 3>>>>}
\* the first row first, so that TLC's workers share the rest
Init == A \in {<<r>> : r \in R2 \cup R3} \cup Fixed4 /\ B = <<>>
Next == /\ B = <<>>
        /\ \/ Len(A[1]) = 2 /\ \E r \in R2, s \in R2, t \in R2 : A' = <<A[1], r>> /\ B' = <<s, t>>
           \/ Len(A[1]) = 3 /\ \E r \in R3, s \in R3, X \in Fixed3 : A' = <<A[1], r, s>> /\ B' = X
           \/ Len(A[1]) = 4 /\ \E X \in Fixed4 : A' = A /\ B' = X
n == Rows(A)
SwapRows(X) == [i \in 1..Rows(X) |-> X[IF i = 1 THEN 2 ELSE IF i = 2 THEN 1 ELSE i]]
Laws == B # <<>> =>
        /\ Det(Mul(A, B)) = Det(A) * Det(B)
        /\ Det(Transpose(A)) = Det(A) /\ Det(SwapRows(A)) = 0 - Det(A) /\ Det(Ident(n)) = 1
        /\ Mul(A, Adj(A)) = ScaleM(Det(A), Ident(n)) /\ Mul(Adj(A), A) = ScaleM(Det(A), Ident(n))
        /\ Transpose(Mul(A, B)) = Mul(Transpose(B), Transpose(A)) /\ Transpose(Transpose(A)) = A
        /\ Apply(Mul(A, B), A[1]) = Apply(A, Apply(B, A[1]))
        /\ Trace(Mul(A, B)) = Trace(Mul(B, A)) /\ DDot(A, B) = Trace(Mul(Transpose(A), B))
        /\ MaxRow(Mul(A, B)) <= MaxRow(A) * MaxRow(B)
        /\ Mul(Outer(A[1], B[1]), Outer(A[2], B[2])) = ScaleM(SumTo([k \in 1..n |-> B[1][k] * A[2][k]], n), Outer(A[1], B[2]))
        /\ (Det(A) # 0 => Apply(A, Apply(Adj(A), B[1])) = VScale(Det(A), B[1]))
=============================================================================
