------------------------------- MODULE Geometry ------------------------------
(* Points, boxes, lines and rays (C21) with integer coordinates; multiples of *)
(* rays and what is cut are in 1 / K (components up to 6 divide K).           *)
EXTENDS Integers, Sequences, FiniteSets
K == 60
NAN == 2000000001
INF == 1000000
Abs(v) == IF v < 0 THEN -v ELSE v
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetMax(S) == CHOOSE m \in S : \A v \in S : v <= m
SetMin(S) == CHOOSE m \in S : \A v \in S : v >= m
Dim(box) == Len(box) \div 2
Lo(box, i) == box[i]
Hi(box, i) == box[Dim(box) + i]
InBox(p, box) == \A i \in 1..Dim(box) : Lo(box, i) <= p[i] /\ p[i] <= Hi(box, i)
(* ---- Rays ----                                                              *)
\* Range of multiples within one dimension of the box
Slab(o, d, lo, hi) ==
  IF d = 0 THEN (IF lo <= o /\ o <= hi THEN <<-INF, INF>> ELSE <<INF, -INF>>)
  ELSE LET a == ((lo - o) * K) \div d b == ((hi - o) * K) \div d IN <<Min2(a, b), Max2(a, b)>>
Span(o, d, box) == LET s == [i \in 1..Dim(box) |-> Slab(o[i], d[i], Lo(box, i), Hi(box, i))] IN
  <<SetMax({s[i][1] : i \in DOMAIN s}), SetMin({s[i][2] : i \in DOMAIN s})>>
\* Entrance and exit (NAN if there is none ahead)
Ray(o, d, box) == LET s == Span(o, d, box) IN
  IF s[1] > s[2] THEN <<NAN, NAN>> ELSE <<IF s[1] < 0 THEN NAN ELSE s[1], IF s[2] < 0 THEN NAN ELSE s[2]>>
At(o, d, t) == [i \in DOMAIN o |-> o[i] * K + t * d[i]]
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
(* ---- Clipping ----                                                          *)
\* Where the edge from a to b first meets the box, other than at its ends (in 1 / K; none)
Edge(a, b, box) == LET r == Ray(SubSeq(a, 1, Dim(box)), SubSeq(Minus(b, a), 1, Dim(box)), box)
                       t == {r[i] : i \in {j \in {1, 2} : r[j] # NAN /\ r[j] > 0 /\ r[j] < K}} IN
  IF t = {} THEN <<>> ELSE <<At(a, Minus(b, a), SetMin(t))>>
Fine(p) == [i \in DOMAIN p |-> K * p[i]]
\* Maximal runs <<first, last>> of true values
Runs(m) == {r \in (DOMAIN m) \X (DOMAIN m) : /\ r[1] <= r[2] /\ \A i \in r[1]..r[2] : m[i]
  /\ (r[1] = 1 \/ ~m[r[1] - 1]) /\ (r[2] = Len(m) \/ ~m[r[2] + 1])}
RECURSIVE InOrder(_)
InOrder(R) == IF R = {} THEN <<>> ELSE LET r == CHOOSE a \in R : \A b \in R : a[1] <= b[1] IN <<r>> \o InOrder(R \ {r})
Clip(line, box) == LET runs == InOrder(Runs([i \in DOMAIN line |-> InBox(line[i], box)])) IN
  [n \in DOMAIN runs |-> LET a == runs[n][1] b == runs[n][2] IN
    (IF a = 1 THEN <<>> ELSE Edge(line[a - 1], line[a], box)) \o [i \in 1..(b - a + 1) |-> Fine(line[a + i - 1])]
    \o (IF b = Len(line) THEN <<>> ELSE Edge(line[b], line[b + 1], box))]
(* ---- Lines of cells ----                                                    *)
Sign(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
LineOk(points, a, b) == LET dx == Abs(b[1] - a[1]) dy == Abs(b[2] - a[2]) n == Max2(dx, dy) IN
  /\ Len(points) = n + 1 /\ points[1] = a /\ points[n + 1] = b
  \* connected, one step along the longer direction at a time
  /\ \A i \in 1..n : LET s == Minus(points[i + 1], points[i]) IN Abs(s[1]) <= 1 /\ Abs(s[2]) <= 1
       /\ (IF dx >= dy THEN s[1] = Sign(b[1] - a[1]) ELSE s[2] = Sign(b[2] - a[2]))
  \* within half a cell
  /\ \A i \in 1..(n + 1) : LET p == Minus(points[i], a) IN 2 * Abs(p[1] * (b[2] - a[2]) - p[2] * (b[1] - a[1])) <= n
\* Line from a to b with accumulated error
RECURSIVE Walk(_, _, _, _, _)
Walk(p, error, d, s, left) == IF left = 0 THEN <<p>> ELSE
  LET major == IF d[1] >= d[2] THEN 1 ELSE 2 minor == 3 - major e == error - d[minor]
      next == [i \in 1..2 |-> p[i] + (IF i = major THEN s[i] ELSE IF e < 0 THEN s[i] ELSE 0)] IN
  <<p>> \o Walk(next, IF e < 0 THEN e + d[major] ELSE e, d, s, left - 1)
Line(a, b) == LET d == <<Abs(b[1] - a[1]), Abs(b[2] - a[2])>> n == Max2(d[1], d[2]) IN
  Walk(a, n \div 2, d, <<Sign(b[1] - a[1]), Sign(b[2] - a[2])>>, n)
(* ---- Circles of cells ----                                                  *)
CircleOk(points, c, r) == LET S == {Minus(points[i], c) : i \in DOMAIN points} IN
  /\ points[1] = points[Len(points)]
  /\ \A i \in 1..(Len(points) - 1) : LET s == Minus(points[i + 1], points[i]) IN Max2(Abs(s[1]), Abs(s[2])) = 1
  /\ \A p \in S : <<p[2], p[1]>> \in S /\ <<-p[1], p[2]>> \in S /\ <<p[1], -p[2]>> \in S
  /\ \A p \in S : LET d == 4 * (p[1] * p[1] + p[2] * p[2]) IN (2 * r - 1) * (2 * r - 1) <= d /\ d <= (2 * r + 1) * (2 * r + 1)
  /\ <<0, r>> \in S
(* ---- Boxes ----                                                             *)
Common(boxes) == LET n == Dim(boxes[1]) IN
  [i \in 1..(2 * n) |-> IF i <= n THEN SetMax({boxes[b][i] : b \in DOMAIN boxes}) ELSE SetMin({boxes[b][i] : b \in DOMAIN boxes})]
Meet(boxes) == LET c == Common(boxes) IN \A i \in 1..Dim(c) : Lo(c, i) < Hi(c, i)
Bounds(points) == LET n == Len(points[1]) IN
  [i \in 1..(2 * n) |-> IF i <= n THEN SetMin({points[p][i] : p \in DOMAIN points}) ELSE SetMax({points[p][i - n] : p \in DOMAIN points})]
\* Coordinates in a range that are a whole number of steps from another
Ticks(lo, hi, step, snap) == InOrder({<<v, v>> : v \in {w \in lo..hi : (w - snap) % step = 0}})
(* ---- Along lines ----                                                       *)
\* Positions at distance num / den of vertices v with distances x (ascending), times `scale`, as <<numerator, denominator>>
Part(v, x, num, den, scale) ==
  LET k == IF num <= x[1] * den THEN 1 ELSE IF num >= x[Len(x)] * den THEN Max2(Len(x) - 1, 1) ELSE CHOOSE i \in 1..(Len(x) - 1) : x[i] * den < num /\ num <= x[i + 1] * den IN
  IF Len(x) = 1 \/ num <= x[1] * den THEN <<[i \in DOMAIN v[1] |-> v[1][i] * scale], 1>>
  ELSE IF num >= x[Len(x)] * den THEN <<[i \in DOMAIN v[1] |-> v[Len(x)][i] * scale], 1>>
  ELSE LET w == (x[k + 1] - x[k]) * den a == num - x[k] * den IN
    <<[i \in DOMAIN v[1] |-> scale * (v[k][i] * w + a * (v[k + 1][i] - v[k][i]))], w>>
Isqrt(n) == CHOOSE r \in 0..n : r * r = n
RECURSIVE Lengths(_, _)
Lengths(v, k) == IF k = 1 THEN <<0>> ELSE LET p == Lengths(v, k - 1) d == Minus(v[k], v[k - 1])
                                            sq == [i \in DOMAIN d |-> d[i] * d[i]] n == IF Len(sq) = 2 THEN sq[1] + sq[2] ELSE IF Len(sq) = 1 THEN sq[1] ELSE sq[1] + sq[2] + sq[3] IN
  Append(p, p[k - 1] + Isqrt(n))
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
(* ---- Sequences ----                                                         *)
\* Groups of equal values of mask m, as <<first, last>>, in order
Groups(m) == InOrder(Runs(m) \cup Runs([i \in DOMAIN m |-> ~m[i]]))
Span2(g) == [i \in 1..(g[2] - g[1] + 1) |-> g[1] + i - 1]
\* Indices of each group; the first and last groups of a loop are one if equal
Split(m, circular) == LET g == Groups(m) n == Len(g) s == [i \in 1..n |-> Span2(g[i])] IN
  IF circular /\ n > 1 /\ m[1] = m[Len(m)] THEN [i \in 1..(n - 1) |-> IF i = 1 THEN s[n] \o s[1] ELSE s[i]] ELSE s
Chosen(m, circular, include) == LET s == Split(m, circular) IN SelectSeq(s, LAMBDA g : include = "all" \/ m[g[1]] = (include = "true"))
SquaredTo(a, b) == LET sq == [i \in DOMAIN a |-> (a[i] - b[i]) * (a[i] - b[i])] IN
  IF Len(sq) = 1 THEN sq[1] ELSE IF Len(sq) = 2 THEN sq[1] + sq[2] ELSE sq[1] + sq[2] + sq[3]
=============================================================================
