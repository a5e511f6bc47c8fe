-------------------------------- MODULE Tracks -------------------------------
(* Summaries and views of tracks (C24). M[i][t]: estimate of track i at time t *)
(* (x, y, z, vx, vy, vz), empty if undefined; S[i][t]: its deviations.         *)
EXTENDS Integers, Sequences, FiniteSets
NAN == 2000000001
INEXACT == 2000000004
NONE == 2000000005
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetMax(S) == CHOOSE m \in S : \A v \in S : v <= m
SetMin(S) == CHOOSE m \in S : \A v \in S : v >= m
Sorted(S) == LET RECURSIVE f(_) f(R) == IF R = {} THEN <<>> ELSE <<SetMin(R)>> \o f(R \ {SetMin(R)}) IN f(S)
Times(M) == 1..Len(M[1])
(* ---- Selections of n things, as a sequence of indices ----                  *)
\* slice: <<start, stop, step>> as in the language (NONE if missing)
RECURSIVE Steps(_, _, _)
Steps(a, b, step) == IF (step > 0 /\ a >= b) \/ (step < 0 /\ a <= b) THEN <<>> ELSE <<a + 1>> \o Steps(a + step, b, step)
Bound(v, n, low, high) == Min2(Max2(IF v < 0 THEN v + n ELSE v, low), high)
Slice(s, n) == LET step == IF s[3] = NONE THEN 1 ELSE s[3] low == IF step > 0 THEN 0 ELSE -1 high == IF step > 0 THEN n ELSE n - 1 IN
  Steps(IF s[1] = NONE THEN (IF step > 0 THEN low ELSE high) ELSE Bound(s[1], n, low, high),
        IF s[2] = NONE THEN (IF step > 0 THEN high ELSE low) ELSE Bound(s[2], n, low, high), step)
Chosen(sel, n) == CASE sel.kind = "all" -> [i \in 1..n |-> i]
  [] sel.kind = "slice" -> Slice(sel.v, n)
  [] sel.kind = "mask" -> Sorted({i \in 1..n : sel.v[i] = 1})
  [] OTHER -> [i \in DOMAIN sel.v |-> IF sel.v[i] < 0 THEN sel.v[i] + n + 1 ELSE sel.v[i] + 1]
(* ---- Summaries ----                                                         *)
\* Parts of estimates
Part(M, ds) == [i \in DOMAIN M |-> [t \in Times(M) |-> [k \in DOMAIN ds |-> IF M[i][t] = <<>> THEN NAN ELSE M[i][t][ds[k]]]]]
Position == <<1, 2, 3>>
Velocity == <<4, 5, 6>>
Defined(M, i) == {t \in Times(M) : M[i][t] # <<>>}
\* Whether each has estimates, and the first and last (from 0) of those that do
Ends(M, c) == LET has == {k \in DOMAIN c : Defined(M, c[k]) # {}} s == Sorted(has) IN
  <<[k \in DOMAIN c |-> IF k \in has THEN 1 ELSE 0], [j \in DOMAIN s |-> SetMin(Defined(M, c[s[j]])) - 1], [j \in DOMAIN s |-> SetMax(Defined(M, c[s[j]])) - 1]>>
(* ---- Plots ----                                                             *)
Line(M, i, a, b) == [t \in Times(M) |-> IF M[i][t] = <<>> THEN <<NAN, NAN>> ELSE <<M[i][t][a], M[i][t][b]>>]
Series(M, days, i, d) == [t \in Times(M) |-> <<days[t], IF M[i][t] = <<>> THEN NAN ELSE M[i][t][d]>>]
Arrows(M, i) == LET s == Sorted(Defined(M, i)) IN [k \in DOMAIN s |-> LET e == M[i][s[k]] IN <<e[1], e[2], e[4], e[5]>>]
\* Bars of deviations: <<x, y, sx, sy>>
Bars(M, S, i) == LET s == Sorted(Defined(M, i)) IN [k \in DOMAIN s |-> LET e == M[i][s[k]] IN <<e[1], e[2], S[i][s[k]][1], S[i][s[k]][2]>>]
Band(M, S, days, i, d) == UNION {{<<days[t], M[i][t][d] + S[i][t][d]>>, <<days[t], M[i][t][d] - S[i][t][d]>>} : t \in Defined(M, i)}
(* ---- Animations ----                                                        *)
\* Frames (from 0): times with an estimate and an image, except the last
Frames(M, images, i, wanted) == LET f == Sorted({t - 1 : t \in {u \in Defined(M, i) : images[u] # NONE /\ (u - 1) \in wanted}}) IN SubSeq(f, 1, Len(f) - 1)
\* Days from frame f to the next
Until(M, images, days, i, wanted, f) == LET next == {t \in Defined(M, i) : images[t] # NONE /\ (t - 1) \in wanted /\ t - 1 > f} IN days[SetMin(next)] - days[f + 1]
\* Where a camera looking down sees a point; camera: <<x, y, cu, cv>>, image size, one pixel per unit
Seen(cam, size, p) == <<size[1] \div 2 + cam[3] + p[1] - cam[1], size[2] \div 2 + cam[4] - (p[2] - cam[2])>>
Around(uv, size) == <<uv[1] - size[1] \div 2, uv[2] - size[2] \div 2, uv[1] + size[1] \div 2, uv[2] + size[2] \div 2>>
Cut(box, size) == <<Max2(box[1], 0), Max2(box[2], 0), Min2(box[3], size[1]), Min2(box[4], size[2])>>
=============================================================================
