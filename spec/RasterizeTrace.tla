--------------------------- MODULE RasterizeTrace ----------------------------
EXTENDS Rasterize, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Range0(q) == {q[i] : i \in DOMAIN q}
Shape(a, n, bands) == Len(a) = n[2] /\ \A r \in DOMAIN a : Len(a[r]) = n[1] /\ \A c \in DOMAIN a[r] : Len(a[r][c]) = bands
Band(v, b) == [i \in DOMAIN v |-> v[i][b]]
\* Every cell of the image is the mean of its points, or what it was
Filled(out, n, bands, cells, vals, was) ==
  IF ~Shape(out, n, bands) THEN {"shape"} ELSE
  UNION {LET m == MeanOf(cells, Band(vals, b), <<r, c>>) IN
    If(IF m = NAN THEN "cell without points" ELSE "mean of the points in a cell", out[r][c][b] = (IF m = NAN THEN was[r][c] ELSE m))
    : r \in 1..n[2], c \in 1..n[1], b \in 1..bands}
Nothing(n) == [r \in 1..n[2] |-> [c \in 1..n[1] |-> NAN]]
FlatMeans(e, cells) == {<<(c[1] - 1) * e.n[1] + c[2] - 1, [b \in 1..e.bands |-> MeanOf(cells, Band(e.vals, b), c)]>> : c \in Range0(cells)}
GridOf(e, xy) == <<OnGrid(xy[1], e.xl, e.d), OnGrid(xy[2], e.yl, e.d)>>
OutOf(e, xy) == xy[1] < Least(e.xl[1], e.xl[2]) \/ xy[1] > Most(e.xl[1], e.xl[2]) \/ xy[2] < Least(e.yl[1], e.yl[2]) \/ xy[2] > Most(e.yl[1], e.yl[2])
Polys(e, q) == [i \in DOMAIN q |-> [j \in DOMAIN q[i] |-> IF e.d = 0 THEN q[i][j] ELSE GridOf(e, q[i][j])]]
\* Values and depth of the points of a surface
Points(e) == {<<r, c>> \in (1..Len(e.y)) \X (1..Len(e.x)) : e.mask[r][c] = 1 /\ e.z[r][c] # NAN}
At(e, rc) == <<e.x[rc[2]], e.y[rc[1]], e.z[rc[1]][rc[2]]>>
SurfaceOf(e, px) == {rc \in Points(e) : PixelOf(e.cam, At(e, rc)) = px}
Layer(e, b, rc) == IF b <= e.bands THEN 60 * e.vals[rc[1]][rc[2]][b] ELSE (60 * Seen(e.cam, At(e, rc))[3] * 8)  \* Depth in 1000ths
SurfaceMean(e, b, S) == LET k == Cardinality(S) f == [p \in S |-> Layer(e, b, p)] IN SumOf(f, S) \div k
JudgeDem(e) ==
  LET n == e.cam.n nb == e.bands + e.depth cells == [rc \in Points(e) |-> PixelOf(e.cam, At(e, rc))] IN
  IF \E rc \in Points(e) : Touches(e.cam, At(e, rc)) THEN {} ELSE
  IF ~Shape(e.out, n, nb) THEN {"shape"} ELSE
  UNION {LET S == {rc \in DOMAIN cells : cells[rc] = <<r, c>>} IN
    IF S = {} THEN If("pixel without surface", \A b \in 1..nb : e.out[r][c][b] = NAN)
    ELSE If(IF e.tiles > 1 THEN "value of the surface in a pixel (tiles)" ELSE "value of the surface in a pixel",
      \A b \in 1..nb : IF e.tiles = 1 \/ Cardinality(S) = 1 THEN Abs(e.out[r][c][b] - SurfaceMean(e, b, S)) <= 1
                       ELSE e.out[r][c][b] # NAN /\ (\E p \in S : Layer(e, b, p) <= e.out[r][c][b] + 1) /\ \E p \in S : Layer(e, b, p) >= e.out[r][c][b] - 1)
    : r \in 1..n[2], c \in 1..n[1]}
\* Sample of an image at fine coordinates
Clamp(x, n) == Most(512, Least(x, 1024 * n - 512)) - 512
Linear(a, x, y, n) ==
  LET c0 == Least(x \div 1024, n[1] - 2) r0 == Least(y \div 1024, n[2] - 2) fx == x - 1024 * c0 fy == y - 1024 * r0
      g(i, j) == a[r0 + 1 + i][c0 + 1 + j] IN
  (((g(0, 0) * (1024 - fx) + g(0, 1) * fx) \div 32) * (1024 - fy) + ((g(1, 0) * (1024 - fx) + g(1, 1) * fx) \div 32) * fy) \div 32  \* In 1024ths
JudgeView(e) ==
  IF ~Shape(e.out, e.to.n, e.bands) THEN {"shape"} ELSE
  UNION {LET s == Source(e.from, e.to, <<r, c>>) got == e.out[r][c] n == e.from.n IN
    IF s[3] < 64 \/ \E i \in 1..2 : Abs(s[i] \div 32) > s[3] THEN If("pixel not seen", e.whole = 1 \/ \A b \in 1..e.bands : got[b] = NAN)
    ELSE LET x == Fine1(s, 1) y == Fine1(s, 2) IN
      IF x < -2 \/ y < -2 \/ x > 1024 * n[1] + 2 \/ y > 1024 * n[2] + 2 THEN If("pixel not seen", e.whole = 1 \/ \A b \in 1..e.bands : got[b] = NAN)
      ELSE IF x <= 2 \/ y <= 2 \/ x >= 1024 * n[1] - 2 \/ y >= 1024 * n[2] - 2 THEN {}
      ELSE IF e.nearest = 1 THEN
        (IF x % 1024 \in ((0..2) \cup (1022..1023)) \/ y % 1024 \in ((0..2) \cup (1022..1023)) THEN {}
         ELSE If("value in the same direction", \A b \in 1..e.bands : got[b] = 1000 * e.img[b][(y \div 1024) + 1][(x \div 1024) + 1]))
      ELSE If("value in the same direction (interpolated)", \A b \in 1..e.bands : got[b] # NAN /\
        LET v == Linear(e.img[b], Clamp(x, n[1]), Clamp(y, n[2]), n) d == Abs((got[b] * 128) \div 125 - v) IN
        IF e.whole = 1 THEN d <= 512 + 160 ELSE d <= 160)
    : r \in 1..e.to.n[2], c \in 1..e.to.n[1]}
Judge(e) ==
  IF e.op = "view" /\ e.from.pos # e.to.pos THEN If("cameras at different positions: rejected", e.err = "ValueError") ELSE
  IF e.err # "" THEN {e.op \o ": no error"} ELSE
  CASE e.op = "image" -> Filled(e.out, e.n, e.bands, [i \in DOMAIN e.uv |-> CellOf(e.uv[i], e.n)], e.vals, Nothing(e.n))
    [] e.op = "indices" -> Filled(e.out, e.n, e.bands, e.cells, e.vals, e.was)
    [] e.op = "flat" -> If("indices and means of cells with points",
         /\ {<<e.idx[i], e.means[i]>> : i \in DOMAIN e.idx} = FlatMeans(e, e.cells)
         /\ \A i \in 1..(Len(e.idx) - 1) : e.idx[i] < e.idx[i + 1])
    [] e.op = "raster" ->
         LET cells == [i \in DOMAIN e.xy |-> IF OutOf(e, e.xy[i]) THEN <<0, 0>> ELSE CellOf(GridOf(e, e.xy[i]), e.n)] IN
         Filled(e.out, e.n, 1, cells, e.vals, Nothing(e.n))
    [] e.op = "polygons" -> LET p == Polys(e, e.polys) q == Polys(e, e.holes) IN
         If("shape", Len(e.out) = e.n[2] /\ \A r \in DOMAIN e.out : Len(e.out[r]) = e.n[1]) \cup
         UNION {If("cells covered by polygons", Unclear(p, q, <<r, c>>) \/ e.out[r][c] = (IF Covered(p, q, <<r, c>>) THEN 1 ELSE 0))
                : r \in 1..e.n[2], c \in 1..e.n[1]}
    [] e.op = "dem" -> JudgeDem(e) \cup If("inputs are not changed", e.kept = 1)
    [] e.op = "view" -> JudgeView(e)
    [] e.op = "tiles" ->
         If("tiles cover the grid", Covers(e.tiles, e.n)) \cup
         If("tiles are within the grid", \A t \in DOMAIN e.tiles : LET q == e.tiles[t] IN 0 <= q[1] /\ q[1] < q[2] /\ q[2] <= e.n[2] /\ 0 <= q[3] /\ q[3] < q[4] /\ q[4] <= e.n[1]) \cup
         If("cells in common are those of the overlap", \A r \in 1..e.n[2], c \in 1..e.n[1] :
              Cardinality({t \in DOMAIN e.tiles : e.tiles[t][1] + (IF e.tiles[t][1] = 0 THEN 0 ELSE e.overlap[2]) < r /\ r <= e.tiles[t][2]
                                                  /\ e.tiles[t][3] + (IF e.tiles[t][3] = 0 THEN 0 ELSE e.overlap[1]) < c /\ c <= e.tiles[t][4]}) = 1)
         \cup If("tiles are as many as nearest to the target size", \A i \in 1..2 :
              LET len == e.tiles[1][IF i = 1 THEN 4 ELSE 2] IN
              \E k \in 0..e.n[i] : 2 * Abs(k * e.size[i] - e.n[i]) <= e.size[i] /\ len = (IF k = 0 THEN e.n[i] ELSE (e.n[i] + k - 1) \div k))
    [] OTHER -> {"unknown event"}
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == LET e == H[h].ev[l + 1] IN l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
