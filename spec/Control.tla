------------------------------ MODULE Control -------------------------------
(* Control of cameras (C16): points and lines of one camera, matches of two.  *)
(* Everything is in units of 1 / U, but image sizes. Cameras look in the same *)
(* direction, and (for points and lines) north. A camera is [xyz, imgsz, f,   *)
(* c, roll, orig] (roll, quarter turns; orig, the size to which factors       *)
(* refer). A control is [kind, cams, uvs, w, has, last, at, int]: uvs, image  *)
(* points per camera; w, weights (if it has any); last, image sizes to which  *)
(* they are scaled; at, position (where directions), int, internal parameters *)
(* (where points are normalized).                                             *)
EXTENDS Integers, Sequences, FiniteSets
U == 64
Abs(x) == IF x < 0 THEN -x ELSE x
Pair(k) == k \in {"Matches", "RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ"}
Rotation(k) == k \in {"RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ"}
Normalized(k) == k \in {"RotationMatchesXY", "RotationMatchesXYZ"}
Internals(cam) == <<cam.imgsz, cam.f, cam.c>>
Sizes(cams, ctrl) == [i \in DOMAIN ctrl.cams |-> cams[ctrl.cams[i]].imgsz]
Ints(cams, ctrl) == [i \in DOMAIN ctrl.cams |-> Internals(cams[ctrl.cams[i]])]
Center(cam, a) == cam.c[a] + (cam.imgsz[a] * U) \div 2
(* Cameras by halves of their original size (the same for rows as for        *)
(* columns, unless forced)                                                    *)
Size(cam, num, den) == [a \in 1..2 |-> (cam.orig[a] * num[a]) \div den]
Resized(cam, num, den) ==
  LET s == Size(cam, num, den) IN
  [cam EXCEPT !.imgsz = s, !.f = [a \in 1..2 |-> (@[a] * s[a]) \div cam.imgsz[a]], !.c = [a \in 1..2 |-> (@[a] * s[a]) \div cam.imgsz[a]]]
ScaledTo(uvs, from, to) == [n \in DOMAIN uvs |-> [a \in 1..2 |-> (uvs[n][a] * to[a]) \div from[a]]]
(* Image points follow their cameras *)
Followed(cams, ctrl) ==
  [ctrl EXCEPT !.uvs = [i \in DOMAIN ctrl.uvs |-> ScaledTo(ctrl.uvs[i], ctrl.last[i], cams[ctrl.cams[i]].imgsz)],
               !.last = Sizes(cams, ctrl)]
ResizeCams(cams, ctrl, num, den) ==
  [i \in DOMAIN cams |-> IF \E j \in DOMAIN ctrl.cams : ctrl.cams[j] = i THEN Resized(cams[i], num, den) ELSE cams[i]]
(* Predictions. Points (n, xyz) at a distance, or directions. *)
From(cam, ctrl) == IF ctrl.dir = 1 THEN <<0, 0, 0>> ELSE cam.xyz
\* Quarter turns of the camera
RECURSIVE Turn(_, _)
Turn(v, k) == IF k = 0 THEN v ELSE Turn(<<v[2], -v[1]>>, k - 1)
Seen(cam, p, o) == LET d == p[2] - o[2] t == Turn(<<p[1] - o[1], o[3] - p[3]>>, cam.roll) IN
  [a \in 1..2 |-> (cam.f[a] * t[a]) \div d + Center(cam, a)]
Normal(cam, uv) == [a \in 1..2 |-> ((uv[a] - Center(cam, a)) * U) \div cam.f[a]]
\* (multiplied before it is divided, for precision)
Across(into, from, uv) ==
  LET k == (into.roll + 4 - from.roll) % 4 n == [a \in 1..2 |-> uv[a] - Center(from, a)]
      over == [a \in 1..2 |-> IF k % 2 = 1 THEN from.f[3 - a] ELSE from.f[a]] t == Turn(n, k) IN
  [a \in 1..2 |-> (t[a] * into.f[a]) \div over[a] + Center(into, a)]
\* For the camera on side i of a match
PredictedPair(cams, ctrl, i) ==
  LET a == cams[ctrl.cams[i]] b == cams[ctrl.cams[3 - i]] IN
  CASE ctrl.kind = "RotationMatchesXYZ" -> [n \in DOMAIN ctrl.uvs[i] |-> Turn(Normal(a, ctrl.uvs[i][n]), 4 - a.roll)]
    [] ctrl.kind = "RotationMatchesXY" -> [n \in DOMAIN ctrl.uvs[i] |-> Turn(Normal(b, ctrl.uvs[3 - i][n]), (a.roll + 4 - b.roll) % 4)]
    [] OTHER -> [n \in DOMAIN ctrl.uvs[i] |-> Across(a, b, ctrl.uvs[3 - i][n])]
ObservedPair(cams, ctrl, i) ==
  IF Normalized(ctrl.kind) THEN [n \in DOMAIN ctrl.uvs[i] |-> Normal(cams[ctrl.cams[i]], ctrl.uvs[i][n])] ELSE ctrl.uvs[i]
\* Rows or columns at which straight lines of the world are seen, those in view, and on its very edge
Along(cams, ctrl) == IF cams[ctrl.cams[1]].roll % 2 = 1 THEN 3 - ctrl.axis ELSE ctrl.axis
Rows(cams, ctrl) == LET cam == cams[ctrl.cams[1]] IN [n \in DOMAIN ctrl.xyz |-> Seen(cam, ctrl.xyz[n], From(cam, ctrl))[Along(cams, ctrl)]]
End(cams, ctrl) == cams[ctrl.cams[1]].imgsz[Along(cams, ctrl)] * U
InView(cams, ctrl) == LET r == Rows(cams, ctrl) IN {n \in DOMAIN r : r[n] > 2 /\ r[n] < End(cams, ctrl) - 2}
OnEdge(cams, ctrl) == LET r == Rows(cams, ctrl) IN {n \in DOMAIN r : ~(r[n] > 2 /\ r[n] < End(cams, ctrl) - 2) /\ r[n] >= -2 /\ r[n] <= End(cams, ctrl) + 2}
\* (lines are seen at a limited density)
Nearest(cams, ctrl, n, p) ==
  LET r == Rows(cams, ctrl) v == ctrl.uvs[1][n] In == InView(cams, ctrl) Out == In = {} a == Along(cams, ctrl)
      cand == IF Out THEN DOMAIN ctrl.xyz ELSE In \cup OnEdge(cams, ctrl) IN
  /\ \E j \in cand : Abs(r[j] - p[a]) <= 1 /\ (Out \/ \A k \in In : Abs(r[j] - v[a]) <= Abs(r[k] - v[a]) + U \div 2)
  /\ Out \/ v[3 - a] <= 0 \/ v[3 - a] >= cams[ctrl.cams[1]].imgsz[3 - a] * U \/ Abs(p[3 - a] - v[3 - a]) <= U
(* Requests that are refused for what changed since the control was made *)
Moved(cams, ctrl) ==
  IF Pair(ctrl.kind) THEN cams[ctrl.cams[1]].xyz # cams[ctrl.cams[2]].xyz ELSE ctrl.dir = 1 /\ cams[ctrl.cams[1]].xyz # ctrl.at
Stale(cams, ctrl) == Rotation(ctrl.kind) /\ Ints(cams, ctrl) # ctrl.int
Refused(cams, ctrl) == Moved(cams, ctrl) \/ Stale(cams, ctrl)
(* Filters: the best by weight, of at least a weight, error, and distance. A  *)
(* limit of 0 is none. Whether a pair at the very limit of error is kept is   *)
(* up to rounding.                                                            *)
Cap(x) == IF x > 32000 \/ x < -32000 THEN 32000 ELSE x
Sq(v) == Cap(v[1]) * Cap(v[1]) + Cap(v[2]) * Cap(v[2])
Minus(a, b) == [i \in 1..2 |-> a[i] - b[i]]
Limit(cams, ctrl, e, x) == IF e.scaled = 1 THEN x * cams[ctrl.cams[e.side]].imgsz[1] ELSE x
ByWeight(ctrl, e, n) ==
  /\ e.best = 0 \/ Cardinality({m \in DOMAIN ctrl.w : ctrl.w[m] > ctrl.w[n]}) < e.best
  /\ e.least = 0 \/ ctrl.w[n] >= e.least
\* (of image points, whatever the kind)
Imaged(ctrl) == [ctrl EXCEPT !.kind = "Matches"]
Error2(cams, ctrl, e, n) == Sq(Minus(ObservedPair(cams, Imaged(ctrl), e.side)[n], PredictedPair(cams, Imaged(ctrl), e.side)[n]))
Distance2(cams, ctrl, e, n) ==
  LET a == cams[ctrl.cams[e.side]].imgsz b == cams[ctrl.cams[3 - e.side]].imgsz IN
  Sq(Minus([i \in 1..2 |-> (ctrl.uvs[3 - e.side][n][i] * a[i]) \div b[i]], ctrl.uvs[e.side][n]))
Sq1(x) == x * x
Keep(cams, ctrl, e, n, slack) ==
  /\ (e.best # 0 \/ e.least # 0) => ByWeight(ctrl, e, n)
  /\ e.error = 0 \/ (IF slack THEN Error2(cams, ctrl, e, n) <= Sq1(Limit(cams, ctrl, e, e.error)) ELSE Error2(cams, ctrl, e, n) < Sq1(Limit(cams, ctrl, e, e.error)))
  /\ e.distance = 0 \/ Distance2(cams, ctrl, e, n) <= Sq1(Limit(cams, ctrl, e, e.distance))
RECURSIVE Sub(_, _, _)
Sub(q, S, i) == IF i > Len(q) THEN <<>> ELSE (IF i \in S THEN <<q[i]>> ELSE <<>>) \o Sub(q, S, i + 1)
Only(ctrl, S) == [ctrl EXCEPT !.uvs = [i \in DOMAIN @ |-> Sub(@[i], S, 1)], !.w = Sub(@, S, 1)]
Filtered(cams, ctrl, e) == Only(ctrl, {n \in DOMAIN ctrl.uvs[1] : Keep(cams, ctrl, e, n, TRUE)})
FilterRefused(cams, ctrl, e) ==
  \/ (e.best # 0 \/ e.least # 0) /\ ctrl.has = 0
  \/ e.error # 0 /\ Refused(cams, ctrl)
  \/ e.distance # 0 /\ Normalized(ctrl.kind) /\ Refused(cams, ctrl)
Converted(cams, ctrl, kind) ==
  IF kind = ctrl.kind THEN ctrl
  ELSE [ctrl EXCEPT !.kind = kind, !.last = Sizes(cams, ctrl), !.int = Ints(cams, ctrl)]
=============================================================================
