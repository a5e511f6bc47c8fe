----------------------------- MODULE CameraFit ------------------------------
(* Cameras optimized together against control (C15). A camera is its vector  *)
(* of 20 parameters (xyz, viewdir, imgsz, f, c, k, p), in units of 1 / U, and *)
(* of 1 / UD for distortion (k, p). A request for parameters is a sequence of *)
(* [attr, idx, min, max]: positions within an attribute, and bounds for each  *)
(* (one for all, or none). Image positions are in units of 1 / (U * U).       *)
EXTENDS Integers, Sequences, FiniteSets
U == 64
NONE == 2000000005
PINF == 2000000002
NINF == -PINF
Attrs == <<"xyz", "viewdir", "imgsz", "f", "c", "k", "p">>
Start == [xyz |-> 0, viewdir |-> 3, imgsz |-> 6, f |-> 8, c |-> 10, k |-> 12, p |-> 18]
Size == [xyz |-> 3, viewdir |-> 3, imgsz |-> 2, f |-> 2, c |-> 2, k |-> 6, p |-> 2]
NP == 20
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN f[i] + SumOver(f, S \ {i})
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Sorted(S) == LET rank(x) == Cardinality({y \in S : y < x}) + 1 IN [n \in 1..Cardinality(S) |-> CHOOSE x \in S : rank(x) = n]
(* Position (1-based, of 20) of an index within its attribute, also from the end *)
At(attr, i) == Start[attr] + (IF i < 0 THEN i + Size[attr] ELSE i) + 1
InRange(attr, i) == i >= -Size[attr] /\ i < Size[attr]
Legal(sel) == \A r \in DOMAIN sel : \A j \in DOMAIN sel[r].idx : InRange(sel[r].attr, sel[r].idx[j])
Mask(sel) == UNION {{At(sel[r].attr, sel[r].idx[j]) : j \in DOMAIN sel[r].idx} : r \in DOMAIN sel}
Of(b, j) == IF b = <<>> THEN NONE ELSE IF Len(b) = 1 THEN b[1] ELSE b[j]
Given(sel, pos, side) ==
  LET hits == {<<r, j>> \in UNION {{<<r, j>> : j \in DOMAIN sel[r].idx} : r \in DOMAIN sel} : At(sel[r].attr, sel[r].idx[j]) = pos} IN
  IF hits = {} THEN NONE
  ELSE LET h == CHOOSE h \in hits : \A g \in hits : h[1] * 100 + h[2] >= g[1] * 100 + g[2] IN
       Of(IF side = 1 THEN sel[h[1]].min ELSE sel[h[1]].max, h[2])
(* Bounds of a camera's parameters unless requested otherwise *)
Default(vec, pos, side) ==
  LET fsum == vec[9] + vec[10] k == (10 * fsum) \div U p == fsum \div U IN
  CASE pos \in 1..6 -> IF side = 1 THEN NINF ELSE PINF
    [] pos \in 7..10 -> IF side = 1 THEN 0 ELSE PINF
    [] pos \in 11..12 -> IF side = 1 THEN -(vec[pos - 4] \div 2) ELSE vec[pos - 4] \div 2
    [] pos \in {14, 15} -> IF side = 1 THEN -(k \div 2) ELSE k \div 2
    [] pos \in {13, 16, 17, 18} -> IF side = 1 THEN -k ELSE k
    [] OTHER -> IF side = 1 THEN -p ELSE p
CamBound(m, i, pos, side) ==
  LET g == Given(m.camsel[i], pos, side) IN IF g = NONE THEN Default(m.built[i], pos, side) ELSE g
Tightest(B, side) == IF side = 1 THEN CHOOSE b \in B : \A a \in B : a <= b ELSE CHOOSE b \in B : \A a \in B : a >= b
GroupBound(m, g, pos, side) ==
  LET v == Given(m.groupsel[g], pos, side) IN
  IF v = NONE THEN Tightest({CamBound(m, m.groups[g][j], pos, side) : j \in DOMAIN m.groups[g]}, side) ELSE v
(* Parameters, in order: those of groups, then those of cameras *)
Slots(m) ==
  Concat([g \in DOMAIN m.groups |-> [n \in 1..Cardinality(Mask(m.groupsel[g])) |-> [group |-> g, cam |-> 0, pos |-> Sorted(Mask(m.groupsel[g]))[n]]]])
  \o Concat([i \in DOMAIN m.built |-> [n \in 1..Cardinality(Mask(m.camsel[i])) |-> [group |-> 0, cam |-> i, pos |-> Sorted(Mask(m.camsel[i]))[n]]]])
Lo(m, s) == IF s.group > 0 THEN GroupBound(m, s.group, s.pos, 1) ELSE CamBound(m, s.cam, s.pos, 1)
Hi(m, s) == IF s.group > 0 THEN GroupBound(m, s.group, s.pos, 2) ELSE CamBound(m, s.cam, s.pos, 2)
Within(v, lo, hi) == Max2(lo, Min2(hi, v))
(* Initial value: of the camera, or the mean of the group (times its size), within bounds *)
Members(m, s) == IF s.group > 0 THEN m.groups[s.group] ELSE <<s.cam>>
Mean(q) == SumOver(q, DOMAIN q) \div Len(q)
MeanExact(q) == SumOver(q, DOMAIN q) % Len(q) = 0
Values(m, s) == [j \in DOMAIN Members(m, s) |-> m.built[Members(m, s)[j]][s.pos]]
Initial(m, s) == Within(Mean(Values(m, s)), Lo(m, s), Hi(m, s))
(* Requests that are rejected *)
InGroup(m, g, i) == \E j \in DOMAIN m.groups[g] : m.groups[g][j] = i
Asks(sel, attr) == \E r \in DOMAIN sel : sel[r].attr = attr
Rejected(m, ctrls) ==
  \/ ~\E n \in DOMAIN ctrls : \E j \in DOMAIN ctrls[n].cams : ctrls[n].cams[j] > 0
  \/ \E g \in DOMAIN m.groups :
       /\ Asks(m.groupsel[g], "f") \/ Asks(m.groupsel[g], "c")
       /\ \E i, j \in DOMAIN m.groups[g] : <<m.built[m.groups[g][i]][7], m.built[m.groups[g][i]][8]>> # <<m.built[m.groups[g][j]][7], m.built[m.groups[g][j]][8]>>
  \/ \E g, h \in DOMAIN m.groups : g # h /\ (Mask(m.groupsel[g]) \cap Mask(m.groupsel[h])) # {} /\ \E i \in DOMAIN m.built : InGroup(m, g, i) /\ InGroup(m, h, i)
  \/ \E i \in DOMAIN m.built :
       /\ m.camsel[i] # <<>> \/ \E g \in DOMAIN m.groups : InGroup(m, g, i) /\ m.groupsel[g] # <<>>
       /\ ~\E n \in DOMAIN ctrls : \E j \in DOMAIN ctrls[n].cams : ctrls[n].cams[j] = i
(* Cameras with the values of parameters: a camera's own over its group's *)
Number(slots, who, pos, cam) == {n \in DOMAIN slots : slots[n].pos = pos /\ IF cam THEN slots[n].cam = who ELSE slots[n].group = who}
Applied(m, cams, values) ==
  LET slots == Slots(m) IN
  [i \in DOMAIN cams |-> [pos \in 1..NP |->
     LET own == Number(slots, i, pos, TRUE)
         shared == {n \in DOMAIN slots : slots[n].pos = pos /\ slots[n].group > 0 /\ InGroup(m, slots[n].group, i)} IN
     IF own # {} THEN values[CHOOSE n \in own : TRUE]
     ELSE IF shared # {} THEN values[CHOOSE n \in shared : TRUE]
     ELSE cams[i][pos]]]
(* Control in use: that of any of the cameras *)
Used(ctrls) == SelectSeq(ctrls, LAMBDA ctrl : \E j \in DOMAIN ctrl.cams : ctrl.cams[j] > 0)
Count(ctrls) == SumOver([n \in DOMAIN Used(ctrls) |-> Len(Used(ctrls)[n].uv)], DOMAIN Used(ctrls))
(* Image position of a world point at a distance (a power of two) before a    *)
(* level, undistorted camera that looks north; and of an image point in       *)
(* another such camera at the same position.                                  *)
Simple(vec) == \A pos \in (4..6) \cup (13..20) : vec[pos] = 0
Center(vec, a) == (vec[10 + a] + vec[6 + a] \div 2) * U
SeenAt(vec, x, y, z) ==
  LET d == y - vec[2] IN <<(vec[9] * (x - vec[1]) * U) \div d + Center(vec, 1), -((vec[10] * (z - vec[3]) * U) \div d) + Center(vec, 2)>>
Across(into, from, uv) ==
  [a \in 1..2 |-> ((uv[a] - Center(from, a)) \div from[8 + a]) * into[8 + a] + Center(into, a)]
\* kinds: points (of xyz), lines (horizontal, of y and z: the position along it is free), matches (of the uv of a second camera)
Vec(cams, others, i) == IF i > 0 THEN cams[i] ELSE others[-i]
Seen(ctrl, n, cams, others) ==
  LET a == Vec(cams, others, ctrl.cams[1]) IN
  CASE ctrl.kind = "points" -> SeenAt(a, ctrl.xyz[n][1], ctrl.xyz[n][2], ctrl.xyz[n][3])
    [] ctrl.kind = "lines" -> <<ctrl.uv[n][1], SeenAt(a, a[1], ctrl.xyz[n][2], ctrl.xyz[n][3])[2]>>
    [] OTHER -> Across(a, Vec(cams, others, ctrl.cams[2]), ctrl.uv2[n])
Observed(ctrls) == Concat([c \in DOMAIN Used(ctrls) |-> Used(ctrls)[c].uv])
Predicted(ctrls, cams, others) ==
  Concat([c \in DOMAIN Used(ctrls) |-> [n \in DOMAIN Used(ctrls)[c].uv |-> Seen(Used(ctrls)[c], n, cams, others)]])
\* Weights, of mean one: w[n] times their number over their sum
Weight(w, n, v) == IF w = <<>> THEN v ELSE (v * w[n] * Len(w)) \div SumOver(w, DOMAIN w)
Residuals(ctrls, w, cams, others) ==
  LET p == Predicted(ctrls, cams, others) o == Observed(ctrls) IN
  [n \in DOMAIN o |-> [a \in 1..2 |-> Weight(w, n, p[n][a] - o[n][a])]]
(* Which camera each point of control belongs to, with its normalized position *)
Owners(ctrls) == Concat([c \in DOMAIN Used(ctrls) |-> [n \in DOMAIN Used(ctrls)[c].uv |-> [c |-> c, n |-> n]]])
Depends(m, s, ctrl) == \E j \in DOMAIN ctrl.cams : ctrl.cams[j] > 0 /\ \E i \in DOMAIN Members(m, s) : Members(m, s)[i] = ctrl.cams[j]
(* First-order optimality in f and c of points (weights constant): the sum of *)
(* residuals times derivatives (1 for c, x / y for f) vanishes, or pushes     *)
(* against the bound at which the parameter is.                               *)
Slope(m, s, ctrls, w, index, res, cams) ==
  LET own == Owners(ctrls) use == Used(ctrls)
      term(n) ==
        LET ctrl == use[own[n].c] i == ctrl.cams[1] v == IF i > 0 THEN cams[i] ELSE <<>> IN
        IF i <= 0 \/ ~(\E j \in DOMAIN Members(m, s) : Members(m, s)[j] = i) THEN 0
        ELSE IF s.group > 0 /\ s.pos \in Mask(m.camsel[i]) THEN 0
        ELSE LET x == ctrl.xyz[own[n].n] d == x[2] - v[2] IN
             CASE s.pos = 11 -> res[n][1] [] s.pos = 12 -> res[n][2]
               [] s.pos = 9 -> (res[n][1] * (x[1] - v[1])) \div d
               [] s.pos = 10 -> -((res[n][2] * (x[3] - v[3])) \div d)
  IN SumOver([n \in DOMAIN own |-> IF n \in index THEN term(n) * (IF w = <<>> THEN 1 ELSE w[n]) ELSE 0], DOMAIN own)
Exact(v) == \A n \in DOMAIN v : v[n] < 100000000 /\ v[n] > -100000000
Optimal(m, ctrls, w, index, values, cams, others) ==
  IF ~Exact(values) \/ ~(\A i \in DOMAIN cams : Exact(cams[i])) THEN FALSE ELSE
  LET slots == Slots(m) after == Applied(m, cams, values) res == Residuals(ctrls, w, after, others) IN
  \/ \A n \in index : res[n] = <<0, 0>>
  \/ /\ \A n \in DOMAIN slots : slots[n].pos \in 9..12
     /\ \A n \in DOMAIN slots :
          LET g == Slope(m, slots[n], ctrls, w, index, res, after) IN
          \/ g = 0
          \/ g < 0 /\ values[n] = Hi(m, slots[n])
          \/ g > 0 /\ values[n] = Lo(m, slots[n])
=============================================================================
