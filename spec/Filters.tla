------------------------------- MODULE Filters -------------------------------
(* Filters and matching of values (C26). Grids are sequences of rows, masks are *)
(* grids of 1 (included) and 0 (excluded); empty if all cells are included.     *)
EXTENDS Integers, Sequences, FiniteSets
Abs(v) == IF v < 0 THEN -v ELSE v
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Rows(a) == Len(a)
Cols(a) == Len(a[1])
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
In(m, y, x) == m = <<>> \/ m[y][x] = 1
Near(n, i, r) == {j \in 1..n : Abs(i - j) <= r}
\* Values of the included cells of a window
Included(a, m, y, x, r) == {a[p[1]][p[2]] : p \in {p \in Near(Rows(a), y, r[1]) \X Near(Cols(a), x, r[2]) : In(m, p[1], p[2])}}
\* Maximum of the included cells around each cell
MaxCell(a, m, y, x, r, fill) == LET S == Included(a, m, y, x, r) IN
  IF S # {} /\ (In(m, y, x) \/ fill = 1) THEN MaxOf(S) ELSE a[y][x]
Maximum(a, m, r, fill) == [y \in 1..Rows(a) |-> [x \in 1..Cols(a) |-> MaxCell(a, m, y, x, r, fill)]]
\* Index reflected at the edges (d c b a | a b c d | d c b a)
RECURSIVE Reflect(_, _)
Reflect(n, i) == IF i < 1 THEN Reflect(n, 1 - i) ELSE IF i > n THEN Reflect(n, 2 * n + 1 - i) ELSE i
\* Gaussian weight that is halved at distance 1: 2 ^ -(d * d), times 16
Weight(d) == CASE d = 0 -> 16 [] Abs(d) = 1 -> 8 [] OTHER -> 1
\* Sum of weights (times values) of the included cells around a cell
Weighted(a, m, y, x, r, f(_, _)) == Sum(Flat([i \in 1..(2 * r[1] + 1) |-> [j \in 1..(2 * r[2] + 1) |->
  LET v == Reflect(Rows(a), y + i - r[1] - 1) u == Reflect(Cols(a), x + j - r[2] - 1) IN
  IF In(m, v, u) THEN Weight(i - r[1] - 1) * Weight(j - r[2] - 1) * f(v, u) ELSE 0]]))
\* Gaussian mean of the included cells: <<numerator, denominator>> (denominator 0: none)
Gauss(a, m, y, x, r, fill) == LET V(v, u) == a[v][u] One(v, u) == 1 IN
  IF ~In(m, y, x) /\ fill = 0 THEN <<a[y][x], 1>> ELSE <<Weighted(a, m, y, x, r, V), Weighted(a, m, y, x, r, One)>>
(* ---- Slopes ----                                                            *)
\* Differences along an axis of cells of size d (either sign), times 2 * |d|
Slope(s, i, d) == (IF d < 0 THEN -1 ELSE 1) * (IF i = 1 THEN 2 * (s[2] - s[1]) ELSE IF i = Len(s) THEN 2 * (s[i] - s[i - 1]) ELSE s[i + 1] - s[i - 1])
Column(a, x) == [y \in 1..Rows(a) |-> a[y][x]]
Dx(a, y, x, d) == Slope(a[y], x, d[1])
Dy(a, y, x, d) == Slope(Column(a, x), y, d[2])
\* Light on a cell: <<sine of the angle to the light without, and squared, length of the normal>>, for light <<east, north, up>>
Light(a, y, x, d, l, ve) == LET n == <<-Dx(a, y, x, d) * ve * Abs(d[2]), -Dy(a, y, x, d) * ve * Abs(d[1]), 2 * Abs(d[1] * d[2])>> IN
  <<n[1] * l[1] + n[2] * l[2] + n[3] * l[3], n[1] * n[1] + n[2] * n[2] + n[3] * n[3]>>
Signed(v) == v * Abs(v)
Brighter(p, q) == Signed(p[1]) * q[2] > Signed(q[1]) * p[2]
(* ---- Distributions ----                                                     *)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET v == MinOf(S) IN <<v>> \o Ascending(S \ {v})
Values(s) == Ascending({s[i] : i \in DOMAIN s})
Upto(s, v) == Cardinality({i \in DOMAIN s : s[i] <= v})
Counts(s) == [k \in DOMAIN Values(s) |-> Upto(s, Values(s)[k])]
\* Value of the same rank in b as v has in a: <<numerator, denominator>>
Match(a, b, v) == LET k == Upto(a, v) n == Len(a) m == Len(b) vs == Values(b) cs == Counts(b) IN
  IF k * m <= cs[1] * n THEN <<vs[1], 1>>
  ELSE LET j == MaxOf({i \in DOMAIN cs : cs[i] * n < k * m}) den == (cs[j + 1] - cs[j]) * n IN <<vs[j] * den + (k * m - cs[j] * n) * (vs[j + 1] - vs[j]), den>>
(* ---- Lists and names ----                                                   *)
Repeat(s, n) == [i \in 1..n |-> s[1 + ((i - 1) % Len(s))]]
\* A list of some length (0: any), or "error"
Formatted(s, n, default) == IF n = 0 THEN s ELSE IF Len(s) >= n THEN SubSeq(s, 1, n)
  ELSE IF default # <<>> THEN s \o [i \in 1..(n - Len(s)) |-> default[1]] ELSE IF s = <<>> THEN s ELSE Repeat(s, n)
Uneven(s, n, default) == n > Len(s) /\ default = <<>> /\ s # <<>> /\ (n % Len(s)) # 0
\* Parts of a name left without (at most k, or all: -1) extensions
Stripped(parts, k) == SubSeq(parts, 1, IF k = -1 \/ k >= Len(parts) THEN 1 ELSE Len(parts) - k)
=============================================================================
