---------------------------- MODULE Interpolation ----------------------------
(* Interpolation of a sequence of rasters at coordinates x (C11).             *)
(* A source is a number (inf = 1) or a raster of n cells between limits xl    *)
(* and yl (in either direction), with values v and cell size d.               *)
EXTENDS Integers, Sequences, FiniteSets
NAN == 2000000001
Abs(a) == IF a < 0 THEN -a ELSE a
Lo(l) == IF l[1] < l[2] THEN l[1] ELSE l[2]
Hi(l) == IF l[1] < l[2] THEN l[2] ELSE l[1]
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
\* Rank of an index by distance, and pairs of the two nearest (any, if tied)
Closest(x, xi, S) == {i \in S : \A j \in S : Abs(x[i] - xi) <= Abs(x[j] - xi)}
Ordered(x, i, j) == IF x[i] <= x[j] THEN <<i, j>> ELSE <<j, i>>
Before(x, xi) == {i \in DOMAIN x : x[i] <= xi}
After(x, xi) == {i \in DOMAIN x : x[i] >= xi}
Bounded(x, xi) == Before(x, xi) # {} /\ After(x, xi) # {}
Pairs(x, xi, extrapolate) ==
  IF extrapolate = 1
  THEN UNION {{Ordered(x, i, j) : j \in Closest(x, xi, DOMAIN x \ {i})} : i \in Closest(x, xi, DOMAIN x)}
  ELSE {Ordered(x, i, j) : i \in Closest(x, xi, Before(x, xi)), j \in Closest(x, xi, After(x, xi))}
\* Fraction of the way from the first to the second, as <<numerator, denominator>>
Fraction(x, ij, xi) == IF x[ij[1]] = x[ij[2]] THEN <<0, 1>> ELSE <<xi - x[ij[1]], x[ij[2]] - x[ij[1]]>>
\* Distance to the nearer of the two, relative to their distance
Near(x, ij, xi) == Smaller(Abs(xi - x[ij[1]]), Abs(xi - x[ij[2]]))
(* Mixture of two values, times m (a multiple of the denominator) *)
Mix(v0, v1, f, m) == IF v0 = NAN \/ v1 = NAN THEN NAN ELSE (v0 * (f[2] - f[1]) + v1 * f[1]) * (m \div f[2])
(* Variance, times 9 m^2: of the first, plus the squared fraction of the sum  *)
(* of both, plus a third of the change toward the nearer, squared.            *)
Variance(s0, s1, v0, v1, f, near, m) ==
  IF v0 = NAN \/ v1 = NAN \/ s0 = NAN \/ s1 = NAN THEN NAN ELSE
  LET k == m \div f[2] IN
  9 * (s0 * s0 * m * m + f[1] * f[1] * k * k * (s0 * s0 + s1 * s1)) + (v1 - v0) * (v1 - v0) * near * near * k * k
(* Value of a source at a point *)
CellAt(l, n, p) ==
  LET d == Abs(l[2] - l[1]) \div n IN
  IF l[1] < l[2] THEN (p - l[1]) \div d + 1 ELSE (l[1] - p) \div d + 1
ValueAt(s, p) == IF s.inf = 1 THEN s.v[1][1] ELSE s.v[CellAt(s.yl, s.n[2], p[2])][CellAt(s.xl, s.n[1], p[1])]
Within(v, zlim) == IF v = NAN \/ zlim = <<>> THEN v ELSE IF v < zlim[1] \/ v > zlim[2] THEN NAN ELSE v
Plus(v, k) == IF v = NAN THEN v ELSE v + k
(* Extent of the result: the common extent of the two and of the limits (as   *)
(* whole cells of a raster), as <<low, high>>; INF where unlimited            *)
INF == 1000000
Extent(s, k) == IF s.inf = 1 THEN <<-INF, INF>> ELSE LET l == IF k = 1 THEN s.xl ELSE s.yl IN <<Lo(l), Hi(l)>>
Common(a, b) == <<Larger(a[1], b[1]), Smaller(a[2], b[2])>>
SnapOut(l, d, o) == <<o + d * ((l[1] - o) \div d), o - d * ((o - l[2]) \div d)>>
=============================================================================
