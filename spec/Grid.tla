-------------------------------- MODULE Grid --------------------------------
(* A regular grid: n = <<nx, ny>> cells between limits xl = <<left, right>>   *)
(* and yl = <<top, bottom>> (in 1/16, in either direction) (C09).             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Abs(x) == IF x < 0 THEN -x ELSE x
Lower(l) == IF l[1] < l[2] THEN l[1] ELSE l[2]
Upper(l) == IF l[1] < l[2] THEN l[2] ELSE l[1]
\* Integer division rounding down, for either sign of the divisor
Div(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
Size(g, k) == g.n[k]
Lim(g, k) == IF k = 1 THEN g.xl ELSE g.yl
D(g, k) == (Lim(g, k)[2] - Lim(g, k)[1]) \div Size(g, k)
\* Position along an axis, in 1/16 cells from the first limit
Pos(g, k, p) == Div(16 * (p - Lim(g, k)[1]), D(g, k))
\* Coordinate of a position in 1/16 cells
Coord(g, k, u) == Lim(g, k)[1] + Div(u * D(g, k), 16)
Center(g, k, i) == Coord(g, k, 16 * i + 8)
Edge(g, k, i) == Coord(g, k, 16 * i)
InLim(g, k, p) == Lower(Lim(g, k)) <= p /\ p <= Upper(Lim(g, k))
InBox(g, p) == InLim(g, 1, p[1]) /\ InLim(g, 2, p[2])
(* Snapping, in 1/16 cells: to cell centers, the higher index on edges but   *)
(* the last cell on the outer edge if asked to stay in bounds; to cell edges *)
(* or to either, the higher on ties.                                         *)
SnapCenter(g, k, p, inbounds) ==
  LET i == Pos(g, k, p) \div 16 IN 16 * (IF inbounds /\ p = Lim(g, k)[2] THEN i - 1 ELSE i) + 8
SnapEdge(g, k, p) == 16 * ((Pos(g, k, p) + 8) \div 16)
SnapAny(g, k, p) == 8 * ((Pos(g, k, p) + 4) \div 8)
Snap(g, k, p, centers, edges, inbounds) ==
  Coord(g, k, IF centers /\ edges THEN SnapAny(g, k, p) ELSE IF centers THEN SnapCenter(g, k, p, inbounds) ELSE SnapEdge(g, k, p))
Index(g, k, p, inbounds) == (SnapCenter(g, k, p, inbounds) - 8) \div 16
Flat(g, rc) == rc[1] * g.n[1] + rc[2]
(* Cells overlapping an interval, as <<first, last>> *)
Overlapping(g, k, l) ==
  {i \in 0..Size(g, k) - 1 : Upper(<<Edge(g, k, i), Edge(g, k, i + 1)>>) > Lower(l) /\ Lower(<<Edge(g, k, i), Edge(g, k, i + 1)>>) < Upper(l)}
Crop(g, k, l) == <<Min(Overlapping(g, k, l)), Max(Overlapping(g, k, l))>>
(* Tiles along an axis: equal lengths, near the target, each (but the first) *)
(* extended backward by the overlap.                                         *)
CeilDiv(a, b) == -((-a) \div b)
Counts(size, t) == {n \in 0..size : 2 * Abs(size - n * t) <= t \/ (n = 0 /\ 2 * size <= t)}
TileLength(size, n) == IF n = 0 THEN size ELSE CeilDiv(size, n)
Tiles(size, len, overlap) ==
  [i \in 1..CeilDiv(size, len) |-> <<IF (i - 1) * len - overlap < 0 \/ i = 1 THEN 0 ELSE (i - 1) * len - overlap,
                                     IF i * len > size THEN size ELSE i * len>>]
TilesOK(size, t, overlap, out) == \E n \in Counts(size, t) : out = Tiles(size, TileLength(size, n), overlap)
=============================================================================
