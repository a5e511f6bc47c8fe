------------------------------- MODULE Ransac -------------------------------
(* Random sample consensus (C18). The model is the mean of points x (integer)  *)
(* with the distance from it as error; a fit is <<sum, number>>, or None      *)
(* when the sum of the points is divisible by g (0: never).                   *)
EXTENDS Integers, Sequences, FiniteSets
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE Sum(_, _)
Sum(x, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN x[i] + Sum(x, S \ {i})
None == <<>>
Fit(x, g, S) == LET s == Sum(x, S) IN IF g > 0 /\ s % g = 0 THEN None ELSE <<s, Cardinality(S)>>
\* Error of point i in 1 / p[2], largest error in 1 / 1000 (never equal)
Error(x, p, i) == Abs(x[i] * p[2] - p[1])
Within(x, p, i, most) == 1000 * Error(x, p, i) < most * p[2]
\* Samples of n points
Samples(x, n) == {S \in SUBSET (DOMAIN x) : Cardinality(S) = n}
Also(x, p, S, most) == {i \in (DOMAIN x) \ S : Within(x, p, i, most)}
\* What a sample leads to: set of at most one [p, num, den] (fit and mean error)
Candidate(x, g, S, most, least) ==
  LET p == Fit(x, g, S) IN
  IF p = None THEN {}
  ELSE LET a == Also(x, p, S, most) T == S \cup a q == Fit(x, g, T) IN
       IF Cardinality(a) <= least \/ q = None THEN {}
       ELSE {[p |-> q, num |-> Sum([i \in DOMAIN x |-> Error(x, q, i)], T), den |-> q[2] * Cardinality(T)]}
Candidates(x, g, seen, most, least) == UNION {Candidate(x, g, S, most, least) : S \in seen}
Better(a, b) == a.num * b.den < b.num * a.den
Best(c) == {a \in c : \A b \in c : ~Better(b, a)}
Inliers(x, p, most) == {i \in DOMAIN x : Within(x, p, i, most)}
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE IF k > n THEN 0 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
Number(x, n, iterations) == LET a == Choose(Len(x), n) IN IF iterations < a THEN iterations ELSE a
=============================================================================
