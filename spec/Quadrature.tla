----------------------------- MODULE Quadrature -----------------------------
(* A tensor rule is built point by point: each point names one point of the
   line rule per direction; the rule is complete when every combination has
   been named once.  Then sums of products over it factorise. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES p, d, seen
All(n, k) == [1..k -> 1..n]
Start(n, k) == p = n /\ d = k /\ seen = {}
Point(ix) == ix \in All(p, d) /\ ix \notin seen /\ seen' = seen \cup {ix} /\ UNCHANGED <<p, d>>
Complete == seen = All(p, d)
\* exact degree of the line rules
GaussDegree(n) == 2 * n - 1
LobattoDegree(n) == IF n = 1 THEN 1 ELSE 2 * n - 3
\* the integral of x^k over [-1, 1] times (k + 1)
Moment(k) == IF k % 2 = 0 THEN 2 ELSE 0
=============================================================================
