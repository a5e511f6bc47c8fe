------------------------------ MODULE Rasterize ------------------------------
(* Values of points, polygons, surfaces and other images in the cells of an  *)
(* image (C14). Cells are <<row, column>> from 1; a cell without a value is  *)
(* NAN. Image coordinates are in quarters of a cell.                         *)
EXTENDS Projection, FiniteSets
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN f[i] + SumOf(f, S \ {i})
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
\* Column (or row) of a coordinate in quarters among n: the limits are included
Cell1(u, n) == IF u < 0 \/ u > 4 * n THEN 0 ELSE Least(u \div 4, n - 1) + 1
CellOf(uv, n) == <<Cell1(uv[2], n[2]), Cell1(uv[1], n[1])>>
Inside(c) == c[1] > 0 /\ c[2] > 0
Members(cells, c) == {i \in DOMAIN cells : cells[i] = c}
\* Mean (in 840ths) of the values v of the points in cell c
MeanOf(cells, v, c) == LET S == Members(cells, c) IN IF S = {} THEN NAN ELSE (840 * SumOf(v, S)) \div Cardinality(S)
(* Grid coordinates: limits l of n cells of size d, either way, in quarters  *)
OnGrid(x, l, d) == IF l[1] <= l[2] THEN (4 * (x - l[1])) \div d ELSE (4 * (l[1] - x)) \div d
Border(u) == u % 4 = 0
(* Polygons as sequences of vertices in quarters: crossings of the ray from  *)
(* p (at odd halves) to the right, or on an edge                             *)
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
NextOf(q, i) == q[(i % Len(q)) + 1]
OnEdge(q, p) == \E i \in DOMAIN q : LET a == q[i] b == NextOf(q, i) IN
  /\ Cross(a, b, p) = 0
  /\ Least(a[1], b[1]) <= p[1] /\ p[1] <= Most(a[1], b[1]) /\ Least(a[2], b[2]) <= p[2] /\ p[2] <= Most(a[2], b[2])
Crossed(q, p) == {i \in DOMAIN q : LET a == q[i] b == NextOf(q, i) IN
  /\ (a[2] > p[2]) # (b[2] > p[2])
  /\ IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0}
InPolygon(q, p) == Cardinality(Crossed(q, p)) % 2 = 1
Center(c) == <<4 * c[2] - 2, 4 * c[1] - 2>>
Covered(polys, holes, c) ==
  /\ \E i \in DOMAIN polys : InPolygon(polys[i], Center(c))
  /\ \A i \in DOMAIN holes : ~InPolygon(holes[i], Center(c))
Unclear(polys, holes, c) == (\E i \in DOMAIN polys : OnEdge(polys[i], Center(c))) \/ \E i \in DOMAIN holes : OnEdge(holes[i], Center(c))
(* Surface: offset of a point (in whole units) in 125ths in the camera, its  *)
(* image coordinate times 8 z, with the principal point in eighths           *)
Seen(cam, w) == Apply(R(cam.ang), [i \in 1..3 |-> w[i] - cam.pos[i]])
U8(cam, c, i) == 8 * cam.f[i] * c[i] + (4 * cam.n[i] + cam.c8[i]) * c[3]
Pixel1(cam, c, i) == LET u == U8(cam, c, i) \div (8 * c[3]) IN IF u < 0 \/ u >= cam.n[i] THEN 0 ELSE u + 1
PixelOf(cam, w) == LET c == Seen(cam, w) IN IF c[3] <= 0 THEN <<0, 0>> ELSE <<Pixel1(cam, c, 2), Pixel1(cam, c, 1)>>
Touches(cam, w) == LET c == Seen(cam, w) IN c[3] = 0 \/ (c[3] > 0 /\ \E i \in 1..2 : U8(cam, c, i) % (8 * c[3]) = 0)
(* Another image: source image coordinate (times 2 z) of target pixel center *)
Ray(to, rc) == Apply(T(R(to.ang)), <<2 * rc[2] - 1 - to.n[1] - 2 * to.c[1], 2 * rc[1] - 1 - to.n[2] - 2 * to.c[2], 2 * to.f[1]>>)
Source(from, to, rc) == LET v == Apply(R(from.ang), Ray(to, rc)) IN
  <<2 * from.f[1] * v[1] + (from.n[1] + 2 * from.c[1]) * v[3], 2 * from.f[1] * v[2] + (from.n[2] + 2 * from.c[2]) * v[3], v[3]>>
\* In 1024ths of a pixel
Fine1(s, i) == 1024 * (s[i] \div (2 * s[3])) + (((s[i] % (2 * s[3])) \div 16) * 1024) \div ((2 * s[3]) \div 16)
(* Tiles of at most the target size (about), with overlap at their starts    *)
Covers(tiles, n) == \A r \in 1..n[2], c \in 1..n[1] : \E t \in DOMAIN tiles :
  tiles[t][1] < r /\ r <= tiles[t][2] /\ tiles[t][3] < c /\ c <= tiles[t][4]
=============================================================================
