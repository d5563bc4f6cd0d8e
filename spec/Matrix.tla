------------------------------- MODULE Matrix -------------------------------
(* Matrices over the integers as sequences of rows, and what the matrix functions mean. *)
EXTENDS Integers, Sequences
Rows(A) == Len(A)
Cols(A) == Len(A[1])
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Mat(m, n, F(_, _)) == [i \in 1..m |-> [j \in 1..n |-> F(i, j)]]
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Transpose(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
Add(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> A[i][j] + B[i][j]]]
ScaleM(k, A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> k * A[i][j]]]
Mul(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> SumTo([k \in 1..Rows(B) |-> A[i][k] * B[k][j]], Rows(B))]]
Apply(A, x) == [i \in 1..Rows(A) |-> SumTo([k \in 1..Len(x) |-> A[i][k] * x[k]], Len(x))]
VAdd(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
VScale(k, x) == [i \in 1..Len(x) |-> k * x[i]]
Outer(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> a[i] * b[j]]]
\* A without row r and column c (numbered from 1)
Strike(A, r, c) == [i \in 1..(Rows(A) - 1) |-> [j \in 1..(Cols(A) - 1) |-> A[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(A) == IF Rows(A) = 1 THEN A[1][1]
          ELSE SumTo([j \in 1..Cols(A) |-> IF A[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE 0 - 1) * A[1][j] * Det(Strike(A, 1, j))], Cols(A))
\* the adjugate: Mul(A, Adj(A)) = Det(A) * Ident
Adj(A) == IF Rows(A) = 1 THEN <<<<1>>>>
          ELSE [i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> (IF (i + j) % 2 = 0 THEN 1 ELSE 0 - 1) * Det(Strike(A, j, i))]]
Trace(A) == SumTo([i \in 1..Rows(A) |-> A[i][i]], Rows(A))
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
RowSum(A, i) == SumTo([j \in 1..Cols(A) |-> AbsI(A[i][j])], Cols(A))
MaxRow(A) == CHOOSE m \in {RowSum(A, i) : i \in 1..Rows(A)} : \A i \in 1..Rows(A) : RowSum(A, i) <= m
DDot(A, B) == SumTo([i \in 1..Rows(A) |-> SumTo([j \in 1..Cols(A) |-> A[i][j] * B[i][j]], Cols(A))], Rows(A))
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Power(_, _)
Power(A, k) == IF k = 0 THEN Ident(Rows(A)) ELSE Mul(A, Power(A, k - 1))
RECURSIVE ExpSum(_, _)
\* n! * sum of the first n+1 terms of the exponential series
ExpSum(A, n) == IF n = 0 THEN Ident(Rows(A)) ELSE Add(ScaleM(n, ExpSum(A, n - 1)), Power(A, n))
Diag(d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE 0]]
=============================================================================
