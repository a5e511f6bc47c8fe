------------------------------- MODULE GridMC -------------------------------
(* Every small grid and point.                                               *)
EXTENDS Grid, Json, TLC
CONSTANTS N, T
VARIABLES g, p, q
vars == <<g, p, q>>
Limits == {<<0, 16>>, <<16, 0>>, <<-32, 16>>, <<48, -16>>}
Grids == {x \in [n : (1..N) \X {1}, xl : Limits, yl : {<<0, 16>>}] :
            (x.xl[2] - x.xl[1]) % x.n[1] = 0 /\ ((x.xl[2] - x.xl[1]) \div x.n[1]) % 16 = 0}
Init == g \in Grids /\ p = 0 /\ q = 0
Next == g' = g /\ p' \in -40..60 /\ q' \in {p', p' + 3, p' + 8, p' + 24}
Spec == Init /\ [][Next]_vars
Centers == {Center(g, 1, i) : i \in -5..8}
Edges == {Edge(g, 1, i) : i \in -5..8}
RoundTrip == \A i \in 0..g.n[1] - 1 :
  /\ Index(g, 1, Center(g, 1, i), TRUE) = i
  /\ Snap(g, 1, Center(g, 1, i), TRUE, FALSE, TRUE) = Center(g, 1, i)
  /\ Coord(g, 1, Pos(g, 1, Center(g, 1, i))) = Center(g, 1, i)
\* Snapping is to the nearest
Nearest(x, S) == \A y \in S : Abs(x - p) <= Abs(y - p)
Snapped == /\ Snap(g, 1, p, TRUE, FALSE, FALSE) \in Centers /\ Nearest(Snap(g, 1, p, TRUE, FALSE, FALSE), Centers)
           /\ Snap(g, 1, p, FALSE, TRUE, FALSE) \in Edges /\ Nearest(Snap(g, 1, p, FALSE, TRUE, FALSE), Edges)
           /\ Nearest(Snap(g, 1, p, TRUE, TRUE, FALSE), Centers \cup Edges)
\* Points in bounds stay in bounds, in a cell
StaysIn == InLim(g, 1, p) => /\ InLim(g, 1, Snap(g, 1, p, TRUE, FALSE, TRUE))
                             /\ Index(g, 1, p, TRUE) \in 0..g.n[1] - 1
\* Cells of a crop cover the part of the interval within the limits
Covers == (p < q /\ Overlapping(g, 1, <<p, q>>) # {}) =>
  LET c == Crop(g, 1, <<p, q>>)
      lo == Lower(<<Edge(g, 1, c[1]), Edge(g, 1, c[2] + 1)>>)
      hi == Upper(<<Edge(g, 1, c[1]), Edge(g, 1, c[2] + 1)>>)
  IN /\ \A x \in p..q : InLim(g, 1, x) => lo <= x /\ x <= hi
     /\ Overlapping(g, 1, <<p, q>>) = c[1]..c[2]
TilesPartition == \A size \in 1..T, t \in 1..T : \A n \in Counts(size, t) :
  LET x == Tiles(size, TileLength(size, n), 0) IN
  /\ Counts(size, t) # {}
  /\ x[1][1] = 0 /\ x[Len(x)][2] = size
  /\ \A i \in 1..Len(x) : x[i][1] < x[i][2] /\ (i > 1 => x[i][1] = x[i - 1][2])
=============================================================================
