--------------------------- MODULE ProjectionTrace ---------------------------
EXTENDS Projection, FiniteSets, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Range0(q) == {q[i] : i \in DOMAIN q}
Near(a, b, tol) == a # NAN /\ Abs(a) < 1000000000 /\ Abs(a - b) <= tol
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Quarter(c, i) == (4 * c[i]) \div c[3]
Expected(cam, c) == ToImage(cam, Quarter(c, 1), Quarter(c, 2))
\* Corners of the view at a depth, in 16000ths (focal lengths divide 16)
Corner(cam, u, v, depth, level) ==
  LET x == ((2 * u - cam.n[1] - 2 * cam.c[1]) * (16 \div cam.f[1])) y == IF level = 1 THEN 0 ELSE ((2 * v - cam.n[2] - 2 * cam.c[2]) * (16 \div cam.f[2]))
      w == Apply(T(R(cam.ang)), <<x * depth, y * depth, 32 * depth>>)
  IN [i \in 1..3 |-> w[i] + 4000 * cam.pos[i]]
Pos(cam) == [i \in 1..3 |-> 4000 * cam.pos[i]]
Corners(cam, depth) == {Corner(cam, u, v, depth, 0) : u \in {0, cam.n[1]}, v \in {0, cam.n[2]}} \cup {Pos(cam)}
Judge(e, cam) ==
  IF e.err # "" THEN {e.op \o ": no error"} ELSE
  CASE e.op = "project" ->
       If("number of points", Len(e.uv) = Len(e.w) /\ Len(e.depth) = Len(e.w)) \cup
       UNION {LET c == InCamera(cam, e.w[i], e.dirs) IN
         If("no projection at or behind the camera", ~Visible(c) => e.uv[i] = <<NAN, NAN>>)
         \cup If("image coordinates", Visible(c) => \A j \in 1..2 : Near(e.uv[i][j], Expected(cam, c)[j], 3))
         \cup If("depth", e.depth[i] = 1000 * c[3])
         \cup If("in front", e.infront[i] = (IF Visible(c) THEN 1 ELSE 0)) : i \in DOMAIN e.w}
       \cup If("same with or without depth, alone or together, for any storage", e.same = 1)
       \cup If("inputs are not changed", e.kept = 1)
    [] e.op = "inverse" ->
       UNION {LET c == InCamera(cam, e.w[i], e.dirs) x == Quarter(c, 1) y == Quarter(c, 2)
                  want == ToWorld([cam EXCEPT !.pos = [j \in 1..3 |-> 4 * @[j]]], <<x * e.depths[i], y * e.depths[i], 4 * e.depths[i]>>, e.out) IN
         If("world coordinates", (Visible(c) /\ Removable(cam, x, y)) => \A j \in 1..3 : Near(e.xyz[i][j], 2000 * want[j], 3)) : i \in DOMAIN e.w}
       \cup If("number of points", Len(e.xyz) = Len(e.w)) \cup If("inputs are not changed", e.kept = 1)
    [] e.op = "rotation" -> If("rotation matrix", e.R = R(cam.ang))
       \cup If("derivative of rotation matrix", \A i, j, m \in 1..3 : e.dR[i][j][m] = DR(cam.ang, j)[m][i])
    [] e.op = "inframe" -> If("in frame", \A i \in DOMAIN e.uv : e.is[i] = (IF Within(cam, e.uv[i]) THEN 1 ELSE 0))
    [] e.op = "edges" -> If("edges", e.uv = Edges(cam.n, e.step))
    [] e.op = "viewbox" -> If("view box", \A i \in 1..3 :
         LET S == {p[i] : p \in Corners(cam, e.depth)} IN e.box[i] = Min(S) /\ e.box[i + 3] = Max(S))
    [] e.op = "viewpoly" -> If("view polygon", e.xyz = <<Pos(cam), Corner(cam, 0, 0, e.depth, 1), Corner(cam, cam.n[1], 0, e.depth, 1), Pos(cam)>>)
    [] e.op = "fromangles" -> If("coordinates of directions", \A i \in DOMAIN e.az :
         LET d == Direction(e.az[i], e.alt[i]) IN
         e.xyz[i] = (IF e.dist = <<>> THEN d ELSE [j \in 1..3 |-> d[j] * e.dist[i] + 25 * cam.pos[j]]))
    [] e.op = "toangles" -> If("angles", \A i \in DOMAIN e.az :
         \* Recorded as cosine and sine, in the ranges stated
         /\ e.alt[i] = e.outalt[i] /\ (e.alt[i][1] # 0 => e.az[i] = e.outaz[i])
         /\ e.outdist = (IF e.dirs = 1 THEN <<>> ELSE e.dist))
       \cup If("ranges of angles", e.ranges = 1)
    [] e.op = "reversible" -> LET s == Along(cam, 1, e.m[1]) t == Along(cam, 2, e.m[2]) IN
       If("reversible", /\ (Rises(s, TRUE) /\ Rises(t, TRUE)) => e.is = 1
                        /\ ~(Rises(s, FALSE) /\ Rises(t, FALSE)) => e.is = 0)
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == LET e == H[h].ev[l + 1] IN l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(e, H[h].cam)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
