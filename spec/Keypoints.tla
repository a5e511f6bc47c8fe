----------------------------- MODULE Keypoints ------------------------------
(* Keypoints of images and matches between them (C17). Keypoints are          *)
(* sequences of <<u, v, d>>: position and (one-dimensional) descriptor. What  *)
(* is in memory or on file is [has, pts]. The images of a matcher are         *)
(* identified by number (imgs, in order of time t).                           *)
EXTENDS Integers, Sequences, FiniteSets
None == [has |-> 0, pts |-> <<>>]
Some(pts) == [has |-> 1, pts |-> pts]
\* Regions: <<>> (everywhere) or columns and rows <<u0, v0, u1, v1>>
Within(p, box) == box = <<>> \/ (p[1] >= box[1] /\ p[2] >= box[2] /\ p[1] <= box[3] /\ p[2] <= box[4])
Detected(content, box, least) == LET T(p) == Within(p, box) /\ p[3] >= least IN SelectSeq(content, T)
(* ---- Keypoints of one image: in memory, on file, after a request ----      *)
\* Asked: [path, over, clear, box, least]
Find(kp, file, o) == o.over = 1 \/ (kp.has = 0 /\ ~(o.path = 1 /\ file.has = 1))
KeypointsOf(kp, file, content, o) ==
  LET new == Some(Detected(content, o.box, o.least)) find == Find(kp, file, o)
      now == IF find THEN new ELSE IF kp.has = 1 THEN kp ELSE file IN
  [kp |-> IF o.clear = 1 THEN None ELSE now,
   file |-> IF o.path = 1 /\ (find \/ file.has = 0) THEN now ELSE file]
(* ---- Pairs of images (by position) ----                                    *)
\* Asked: maxdt (-1, none), seq, useseq, sel, useimgs
Selected(t, o) ==
  {p \in (1..Len(t)) \X (1..Len(t)) :
    /\ p[1] < p[2]
    /\ \/ o.maxdt < 0 /\ o.useseq = 0
       \/ o.maxdt >= 0 /\ t[p[2]] - t[p[1]] <= o.maxdt
       \/ o.useseq = 1 /\ \E n \in DOMAIN o.seq : o.seq[n] > 0 /\ p[2] - p[1] = o.seq[n]
    /\ o.useimgs = 0 \/ \E n \in DOMAIN o.sel : o.sel[n] \in {p[1], p[2]}}
(* ---- Matches of two images ----                                            *)
\* Asked: [cross, ratio (in eighths, 0: none), dist (in halves, 0: none), weights, box]
Dist(a, b) == IF a[3] > b[3] THEN a[3] - b[3] ELSE b[3] - a[3]
Nearest(a, kb) == {m \in DOMAIN kb : \A k \in DOMAIN kb : Dist(a, kb[m]) <= Dist(a, kb[k])}
Best(a, kb) == Dist(a, kb[CHOOSE m \in Nearest(a, kb) : TRUE])
Second(a, kb) == LET m == CHOOSE m \in Nearest(a, kb) : TRUE r == {Dist(a, kb[k]) : k \in (DOMAIN kb) \ {m}} IN CHOOSE x \in r : \A y \in r : x <= y
Near(a, b, dist) == dist = 0 \/ 4 * ((a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])) < dist * dist
Distinct(a, kb, ratio) == ratio = 0 \/ (LET s == Second(a, kb) IN s > 0 /\ Best(a, kb) * 8 < ratio * s)
Both(pts, box) == SelectSeq(pts, LAMBDA p : Within(p, box))
Few(ka, kb, o) == LET n == IF o.ratio > 0 \/ o.weights = 1 THEN 2 ELSE 1 IN Len(ka) < n \/ Len(kb) < n
\* Keypoint m of the second is a match for n of the first; or must be (when there is no tie)
May(ka, kb, n, m, o) ==
  /\ m \in Nearest(ka[n], kb) /\ (o.cross = 1 => n \in Nearest(kb[m], ka))
  /\ Near(ka[n], kb[m], o.dist) /\ Distinct(ka[n], kb, o.ratio)
Must(ka, kb, n, o) == \A m \in Nearest(ka[n], kb) : May(ka, kb, n, m, o) /\ (o.cross = 1 => Nearest(kb[m], ka) = {n})
\* A match is [pts: <<ua, va, ub, vb>>, has (weights), w (in 1 / W)]
W == 1048576
At(k, u, v) == {n \in DOMAIN k : k[n][1] = u /\ k[n][2] = v}
\* (all as infinite as another)
Weighs(w, a, kb, inf) ==
  LET best == Best(a, kb) s == Second(a, kb) IN
  IF best = 0 THEN w = (IF s = 0 THEN W ELSE inf) ELSE w * best - W * s <= best /\ W * s - w * best <= best
Matched(ka0, kb0, o, m, inf) ==
  LET ka == Both(ka0, o.box) kb == Both(kb0, o.box) IN
  IF Few(ka, kb, o) THEN m.pts = <<>>
  ELSE LET N == {n \in DOMAIN ka : Must(ka, kb, n, o)} IN
    /\ \A x \in DOMAIN m.pts : \E n \in At(ka, m.pts[x][1], m.pts[x][2]), k \in At(kb, m.pts[x][3], m.pts[x][4]) :
         May(ka, kb, n, k, o) /\ (o.weights = 1 => Weighs(m.w[x], ka[n], kb, inf))
    /\ \A x, y \in DOMAIN m.pts : x < y =>
         LET a == CHOOSE n \in At(ka, m.pts[x][1], m.pts[x][2]) : TRUE b == CHOOSE n \in At(ka, m.pts[y][1], m.pts[y][2]) : TRUE IN a < b
    /\ \A n \in N : \E x \in DOMAIN m.pts : m.pts[x][1] = ka[n][1] /\ m.pts[x][2] = ka[n][2]
\* The matches there must be, if there are no ties
MatchOf(ka, kb, o) ==
  IF Few(ka, kb, o) THEN <<>>
  ELSE LET N == {n \in DOMAIN ka : Must(ka, kb, n, o)} F(p) == \E n \in N : ka[n] = p K == SelectSeq(ka, F) IN
    [x \in DOMAIN K |-> LET b == kb[CHOOSE m \in Nearest(K[x], kb) : TRUE] IN <<K[x][1], K[x][2], b[1], b[2]>>]
(* ---- Filter of matches: [dist, least (weight, in 1 / W)], 0: none ----      *)
Passing(m, f) ==
  LET ok == {x \in DOMAIN m.pts : Near(<<m.pts[x][1], m.pts[x][2]>>, <<m.pts[x][3], m.pts[x][4]>>, f.dist)
                                   /\ (f.least = 0 \/ m.w[x] >= f.least)}
      idx == SelectSeq([x \in DOMAIN m.pts |-> x], LAMBDA x : x \in ok) IN
  [m EXCEPT !.pts = [n \in DOMAIN idx |-> m.pts[idx[n]]], !.w = IF m.has = 1 THEN [n \in DOMAIN idx |-> m.w[idx[n]]] ELSE <<>>]
(* ---- Without some images (and those that are left without matches) ----    *)
\* matches: sequence of [i, j, kind, uv, m] in order
Dropped(matches, gone) == SelectSeq(matches, LAMBDA x : x.i \notin gone /\ x.j \notin gone)
Kept(n, matches) == SelectSeq([i \in 1..n |-> i], LAMBDA i : \E x \in DOMAIN matches : i \in {matches[x].i, matches[x].j})
Position(kept, i) == CHOOSE p \in DOMAIN kept : kept[p] = i
Renumbered(matches, kept) == [x \in DOMAIN matches |-> [matches[x] EXCEPT !.i = Position(kept, @), !.j = Position(kept, @)]]
(* ---- What is reported ----                                                 *)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Breaks(n, matches, least) ==
  {i \in 1..(n - 1) : Cardinality({x \in DOMAIN matches : matches[x].i = i}) < Min(Max(least, 1), n - i)}
RECURSIVE Total(_, _)
Total(s, x) == IF x > Len(s) THEN 0 ELSE s[x] + Total(s, x + 1)
Of(matches, i) == SelectSeq(matches, LAMBDA x : i \in {x.i, x.j})
Points(n, matches) == [i \in 1..n |-> LET o == Of(matches, i) IN Total([x \in DOMAIN o |-> Len(o[x].m.pts)], 1)]
Images(n, matches) == [i \in 1..n |-> LET o == Of(matches, i) IN Total([x \in DOMAIN o |-> IF o[x].m.pts = <<>> THEN 0 ELSE 1], 1)]
=============================================================================
