----------------------------- MODULE Projection ------------------------------
(* Projection between world and image coordinates (C13). Angles are given by *)
(* their cosine and sine in fifths, so rotations are exact in 125ths; world  *)
(* coordinates are in 125ths, image coordinates in 65536ths of a pixel.      *)
EXTENDS Integers, Sequences
NAN == 2000000001
Abs(a) == IF a < 0 THEN -a ELSE a
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Col(m, j) == <<m[1][j], m[2][j], m[3][j]>>
Mul(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> Dot(a[i], Col(b, j))]]
T(m) == [i \in 1..3 |-> Col(m, i)]
Apply(m, v) == [i \in 1..3 |-> Dot(m[i], v)]
Scaled(m, d) == [i \in 1..3 |-> [j \in 1..3 |-> m[i][j] \div d]]
(* Elementary rotations, in fifths: the camera (x right, y down, z forward)  *)
(* faces north, then turns clockwise by yaw, up by pitch, and rolls.         *)
North == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
Yaw(a) == <<<<a[1], 0, -a[2]>>, <<0, a[3], 0>>, <<a[2], 0, a[1]>>>>
Pitch(a) == <<<<a[3], 0, 0>>, <<0, a[1], a[2]>>, <<0, -a[2], a[1]>>>>
Roll(a) == <<<<a[1], a[2], 0>>, <<-a[2], a[1], 0>>, <<0, 0, a[3]>>>>
Unit(a) == <<a[1], a[2], 5>>
Slope(a) == <<-a[2], a[1], 0>>  \* Derivative with respect to the angle
Compose(y, p, r) == Mul(Roll(r), Mul(Pitch(p), Mul(Yaw(y), North)))
R(ang) == Compose(Unit(ang[1]), Unit(ang[2]), Unit(ang[3]))
DR(ang, i) == Compose(IF i = 1 THEN Slope(ang[1]) ELSE Unit(ang[1]), IF i = 2 THEN Slope(ang[2]) ELSE Unit(ang[2]),
                      IF i = 3 THEN Slope(ang[3]) ELSE Unit(ang[3]))
(* World to camera coordinates: dirs = 1 if w are directions. corr = <<n, d>> *)
(* lowers points by n / d of their squared distance (not for directions).    *)
Offset(cam, w, dirs) == IF dirs = 1 THEN w ELSE [i \in 1..3 |-> w[i] - 125 * cam.pos[i]]
Lowered(cam, d, dirs) ==
  IF dirs = 1 \/ cam.corr[1] = 0 THEN d
  ELSE [d EXCEPT ![3] = @ - 125 * ((((d[1] \div 125) * (d[1] \div 125) + (d[2] \div 125) * (d[2] \div 125)) * cam.corr[1]) \div cam.corr[2])]
InCamera(cam, w, dirs) == LET v == Apply(R(cam.ang), Lowered(cam, Offset(cam, w, dirs), dirs)) IN [i \in 1..3 |-> v[i] \div 15625]
ToWorld(cam, c, dirs) == LET v == Apply(T(R(cam.ang)), c) IN IF dirs = 1 THEN v ELSE [i \in 1..3 |-> v[i] + 125 * cam.pos[i]]
Visible(c) == c[3] > 0
(* Distortion of camera coordinates in quarters; k in 65536ths, 4096ths and  *)
(* 256ths, p in 256ths, the multiplier A / B in 2^20ths, the shift in 4096ths *)
One == 1048576
R2(x, y) == x * x + y * y
Radial(k, r) == One + k[1] * r + k[2] * r * r + k[3] * r * r * r
A(cam, r) == Radial(cam.k, r)
B(cam, r) == Radial(<<cam.k[4], cam.k[5], cam.k[6]>>, r)
Shift(cam, x, y) == <<2 * x * y * cam.p[1] + cam.p[2] * (R2(x, y) + 2 * x * x), cam.p[1] * (R2(x, y) + 2 * y * y) + 2 * x * y * cam.p[2]>>
RECURSIVE Digits(_, _, _, _)
Digits(q, r, d, n) == IF n = 0 THEN q ELSE Digits(16 * q + (16 * r) \div d, (16 * r) % d, d, n - 1)
Ratio(n, d) == Digits(n \div d, n % d, d, 4)  \* In 65536ths
ToImage(cam, x, y) ==
  LET r == R2(x, y) xy == <<x, y>> t == Shift(cam, x, y)
      D(i) == IF cam.k = <<0, 0, 0, 0, 0, 0>> THEN xy[i] * 16384 * cam.f[i]
              ELSE Ratio(cam.f[i] * xy[i] * A(cam, r), 4 * B(cam, r))
  IN [i \in 1..2 |-> D(i) + 16 * cam.f[i] * t[i] + 32768 * (cam.n[i] + 2 * cam.c[i])]
\* Where distortion can be removed: before the maximum of k1, or if weak
Weak(cam, x, y) ==
  LET r == R2(x, y) IN
  2 * r * (Abs(cam.k[1]) + Abs(cam.k[4])) + 4 * r * r * (Abs(cam.k[2]) + Abs(cam.k[5])) + 6 * r * r * r * (Abs(cam.k[3]) + Abs(cam.k[6]))
  + 6 * 1024 * (Abs(cam.p[1]) + Abs(cam.p[2])) * (Abs(x) + Abs(y)) <= One \div 4
OnlyK1(cam) == cam.k[1] # 0 /\ \A i \in 2..6 : cam.k[i] = 0 /\ cam.p = <<0, 0>>
Removable(cam, x, y) == IF OnlyK1(cam) THEN One + 3 * cam.k[1] * R2(x, y) > One \div 64 ELSE Weak(cam, x, y)
(* Distorted coordinates (in 2^-22) along the middle row and column of an    *)
(* image whose pixels are at quarters -m, -m + 2, ..., m                     *)
Along(cam, axis, m) == [j \in 1..(m + 1) |-> LET a == 2 * (j - 1) - m IN
  a * A(cam, a * a) + 1024 * (IF axis = 1 THEN Shift(cam, a, 0)[1] ELSE Shift(cam, 0, a)[2])]
Rises(s, strict) == \A j \in 1..(Len(s) - 1) : s[j + 1] > s[j] \/ (~strict /\ s[j + 1] = s[j])
(* Frame and its edges *)
Within(cam, uv) == \A i \in 1..2 : uv[i] # NAN /\ 0 <= uv[i] /\ uv[i] <= 2 * cam.n[i]  \* uv in halves
Edges(n, s) ==
  LET a == n[1] \div s[1] b == n[2] \div s[2] IN
  [i \in 1..(a + 1) |-> <<s[1] * (i - 1), 0>>] \o [i \in 1..(b - 1) |-> <<n[1], s[2] * i>>]
  \o [i \in 1..(a + 1) |-> <<s[1] * (a + 1 - i), n[2]>>] \o [i \in 1..(b - 1) |-> <<0, s[2] * (b - i)>>]
(* Directions of angles: azimuth clockwise from north, altitude upwards      *)
Direction(az, alt) == <<alt[1] * az[2], alt[1] * az[1], 5 * alt[2]>>  \* In 25ths
=============================================================================
