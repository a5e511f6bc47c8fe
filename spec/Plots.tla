-------------------------------- MODULE Plots --------------------------------
(* Plots of controls, rasters and images (C25). Cameras look straight at a plane *)
(* of points <<x, y>> (y up): <<x, y, cu, cv>>, one pixel per unit.             *)
EXTENDS Tracks
Abs(v) == IF v < 0 THEN -v ELSE v
Sign(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
\* Points in nothing else than the selection
Others(c, n) == Sorted((1..n) \ {c[k] : k \in DOMAIN c})
\* Arrow from one point to another
Arrow(a, b) == <<a[1], a[2], b[1] - a[1], b[2] - a[2]>>
Pick(s, c) == [k \in DOMAIN c |-> s[c[k]]]
(* ---- Predictions ----                                                        *)
Points(cams, sizes, k) == [i \in DOMAIN k.uv |-> Seen(cams[k.cam], sizes[k.cam], k.xy[i])]
\* Matches: position of the same ray in the other camera
Match(cams, sizes, k, to) == LET from == 3 - to shift(d) == cams[k.cams[to]][d + 2] - cams[k.cams[from]][d + 2] + (sizes[k.cams[to]][d] - sizes[k.cams[from]][d]) \div 2 IN [i \in DOMAIN k.uvs[from] |->
  <<k.uvs[from][i][1] + shift(1), k.uvs[from][i][2] + shift(2)>>]
\* Pixels along a line of horizontal and vertical pieces
RECURSIVE Walk(_, _)
Walk(a, b) == IF a = b THEN <<>> ELSE LET n == <<a[1] + Sign(b[1] - a[1]), a[2] + Sign(b[2] - a[2])>> IN <<n>> \o Walk(n, b)
RECURSIVE Along(_)
Along(s) == IF Len(s) = 1 THEN s ELSE LET r == Along(SubSeq(s, 1, Len(s) - 1)) IN r \o Walk(s[Len(s) - 1], s[Len(s)])
Projected(cams, sizes, k) == [i \in DOMAIN k.xys |-> Along([j \in DOMAIN k.xys[i] |-> Seen(cams[k.cam], sizes[k.cam], k.xys[i][j])])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Far2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
\* Whether a point of the lines is nearest to one observed
Nearest(lines, uv, p) == LET S == {Flat(lines)[i] : i \in DOMAIN Flat(lines)} IN p \in S /\ \A s \in S : Far2(uv, p) <= Far2(uv, s)
(* ---- Figures ----                                                            *)
\* Parts drawn of a control of n points: <<unselected, selected>>, empty if hidden
Parts(c, n, hide) == <<IF hide[2] = 1 THEN <<>> ELSE Others(c, n), IF hide[1] = 1 THEN <<>> ELSE c>>
Limits(size) == <<<<0, size[1]>>, <<size[2], 0>>>>
\* Sequence of controls of a camera
Of(controls, cam) == LET s == Sorted({i \in DOMAIN controls : IF controls[i].kind = "matches" THEN controls[i].cams[1] = cam \/ controls[i].cams[2] = cam ELSE controls[i].cam = cam}) IN Pick(controls, s)
(* ---- Places of cells ----                                                    *)
\* Doubled center of cell i of n between limits (doubled too)
Center2(lim, n, i) == ((2 * n - 2 * i + 1) * lim[1] + (2 * i - 1) * lim[2]) \div n
=============================================================================
