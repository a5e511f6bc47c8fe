------------------------------ MODULE Tracking ------------------------------
(* Tracking of points through image sequences (C01, C02).                    *)
(*                                                                           *)
(* A call c of the tracker has                                               *)
(*   obs[o]: increasing times of the images of observer o                    *)
(*   req, maxdt: requested times (<<>> if all) and tolerance                 *)
(*   mask[k][o]: 1 if observer o is used for track k                         *)
(*   tracks[k]: initial x, velocity vx of each particle, penalties of the    *)
(*     motion model (<<>> if none), step and kind of failure, warning steps  *)
(*   pen[o][j]: penalties (by x modulo 8) of image j of observer o           *)
(*   off, badimg: images <<o, j>> where particles are out of bounds, or      *)
(*     which cannot be read                                                  *)
(*   vis: particles at x >= vis are not visible                              *)
(* Penalties are in units of log 2, Kill for impossible.                     *)
(* Particles are rows <<x, y, z, vx, vy, vz>>, where y is the row number at  *)
(* the last step and vy the sum of time steps (see the motion model of the   *)
(* driver).                                                                  *)
EXTENDS Datetimes, Resample
Kill == 99
Full == 64

Times(c) == IF c.req = <<>> THEN [err |-> "", out |-> Sorted(UnionAll(c.obs)), warned |-> 0]
            ELSE Parse(c.obs, c.req, c.maxdt)
\* Matching images [i][o]
Images(c) == Match(c.obs, Times(c).out, c.maxdt)
FirstOf(m, O) == LET S == {i \in DOMAIN m : \E o \in O : m[i][o] # -1} IN IF S = {} THEN 0 ELSE Min(S)
LastOf(m, O) == LET S == {i \in DOMAIN m : \E o \in O : m[i][o] # -1} IN IF S = {} THEN 0 ELSE Max(S)
Used(c, k) == {o \in DOMAIN c.obs : c.mask[k][o] = 1}
\* Observers whose template is taken at step i, and with evidence at step i
TemplateAt(c, m, k, i) == {o \in Used(c, k) : FirstOf(m, {o}) = i}
EvidenceAt(c, m, k, i) == {o \in Used(c, k) : m[i][o] # -1 /\ i > FirstOf(m, Used(c, k))}
IsIn(pairs, o, j) == \E p \in DOMAIN pairs : pairs[p] = <<o, j>>
Off(c, m, k, i) == {o \in EvidenceAt(c, m, k, i) : IsIn(c.off, o, m[i][o])}
Seen(c, m, k, i) == EvidenceAt(c, m, k, i) \ Off(c, m, k, i)
Reads(c, m, k, i) == TemplateAt(c, m, k, i) \cup Seen(c, m, k, i)

InitialParticles(c, k) ==
  [p \in 1..Len(c.tracks[k].x) |-> <<c.tracks[k].x[p], p - 1, p, c.tracks[k].vx[p], 0, 0>>]
Evolved(parts, dt) ==
  [p \in DOMAIN parts |-> <<parts[p][1] + dt * parts[p][4], p - 1, parts[p][3], parts[p][4], parts[p][5] + dt, parts[p][6]>>]
Pow2(k) == 2 ^ k
Penalty(c, m, k, i, part) ==
  LET S == Seen(c, m, k, i)
      es == {<<o, c.pen[o][m[i][o] + 1][(part[1] % 8) + 1]>> : o \in S}
      pr == IF c.tracks[k].prior = <<>> THEN 0 ELSE c.tracks[k].prior[(part[1] % 4) + 1]
  IN FoldSet(LAMBDA a, b : a[2] + b, pr, es)
\* Weights after evidence (unchanged if there is none)
Weigh(c, m, k, i, parts, w) ==
  IF Seen(c, m, k, i) = {} /\ c.tracks[k].prior = <<>> THEN w
  ELSE LET pen == [p \in DOMAIN parts |-> Penalty(c, m, k, i, parts[p])]
           raw == [p \in DOMAIN parts |-> IF pen[p] >= Kill THEN 0 ELSE Full \div Pow2(pen[p])]
       IN IF \A p \in DOMAIN raw : raw[p] = 0 THEN [p \in DOMAIN raw |-> 1] ELSE raw

(* Failure of track k at step i (time i - first of the track), or "" *)
FailAt(c, m, k, i, parts) ==
  LET s == i - FirstOf(m, Used(c, k))
      t == c.tracks[k]
  IN IF t.failstep = s /\ t.failkind # "nan" THEN t.failkind
     ELSE IF \E p \in DOMAIN parts : parts[p][1] >= c.vis THEN "ValueError"
     ELSE IF t.failstep = s THEN "ValueError"
     ELSE IF \E o \in Reads(c, m, k, i) : IsIn(c.badimg, o, m[i][o]) THEN "OSError"
     ELSE ""
\* Warnings of a step: the step number for the motion model, -1 for out of bounds
WarnAt(c, m, k, i) ==
  LET s == i - FirstOf(m, Used(c, k)) IN
  IF \E q \in DOMAIN c.tracks[k].warn : c.tracks[k].warn[q] = s THEN <<s>> ELSE <<>>
\* All warnings of out of bounds images; an image that cannot be read may come before them
OffWarn(c, m, k, i) == [q \in 1..Cardinality(Off(c, m, k, i)) |-> -1]

(* Legal resampled sources (lenient with the rounding of exact multiples) *)
DrawFailures(method, w, src) ==
  IF method = "residual"
  THEN Failures("choice", w, src) \cup
    (IF \A i \in DOMAIN w : Count(src, i) >= (IF w[i] = 0 THEN 0 ELSE (Len(w) * w[i] - 1) \div Sum(w))
     THEN {} ELSE {"residual: at least rounded-down number"})
  ELSE Failures(method, w, src)

Project(o, j, x, y) == <<150 + 2 * x + j, 60 + 3 * y>>
=============================================================================
