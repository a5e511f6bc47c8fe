----------------------------- MODULE Converters ------------------------------
(* Camera models of other software (C20). Lengths are in halves (of a pixel   *)
(* or millimetre), coefficients in 1 / 64, normalized image coordinates in    *)
(* halves. What is computed is in 1 / G, exactly or with long division.       *)
EXTENDS Integers, Sequences, FiniteSets
G == 4096
Abs(v) == IF v < 0 THEN -v ELSE v
\* floor(2 ^ bits * n / d) of natural numbers
RECURSIVE Bits(_, _, _)
Bits(n, d, bits) == IF bits = 0 THEN n \div d ELSE LET q == n \div d r == n % d IN
  IF bits = 1 THEN 2 * q + ((2 * r) \div d)
  ELSE LET t == (2 * r) \div d IN (2 * q + t) * (2 ^ (bits - 1)) + (Bits((2 * r) % d, d, bits - 1))
Ratio(n, d, bits) == IF n < 0 THEN -Bits(-n, d, bits) ELSE Bits(n, d, bits)
One == 16384
\* 1 + k1 r2 + ... + k4 r2 ^ 4, where r2 = a / 4, in 1 / One
Radial(k, a) == One + k[1] * a * 64 + k[2] * a * a * 16 + k[3] * a * a * a * 4 + k[4] * a * a * a * a
\* 2 p xy + q (r2 + 2 x ^ 2), in 1 / One
Tangent(p, q, x, y, a) == 64 * (2 * p * x * y + q * (a + 2 * x * x))
R2(x, y) == x * x + y * y
\* Distorted coordinates, in 1 / (2 One): k (up to four), p1, p2 as of the camera
Bent(k, p, q, x, y) == LET a == R2(x, y) r == Radial(k, a) IN
  <<x * r + 2 * Tangent(p, q, x, y, a), y * r + 2 * Tangent(q, p, y, x, a)>>
(* ---- The camera: [size, f, c, k (6), p (2)], c from the center ----         *)
\* Length v (halves) times b / (2 One), in 1 / G
Times(v, b) == Ratio(v * b, 16, 0)
CameraUv(m, x, y) ==
  LET a == R2(x, y) n == Radial(<<m.k[1], m.k[2], m.k[3], 0>>, a) d == Radial(<<m.k[4], m.k[5], m.k[6], 0>>, a)
      \* (x n / d, in 1 / (2 One))
      Part(v) == IF d = One THEN v * n ELSE Ratio(v * n, d, 14) IN
  <<(G \div 2) * (m.size[1] + m.c[1]) + Times(m.f[1], Part(x) + 2 * Tangent(m.p[1], m.p[2], x, y, a)),
    (G \div 2) * (m.size[2] + m.c[2]) + Times(m.f[2], Part(y) + 2 * Tangent(m.p[2], m.p[1], y, x, a))>>
(* ---- Agisoft: [f, cx, cy, k (4), p1, p2, b1, b2] from the center ----       *)
AgisoftUv(m, x, y) ==
  LET d == Bent(m.k, m.p2, m.p1, x, y) IN
  <<(G \div 2) * (m.size[1] + m.cx) + Times(m.f + m.b1, d[1]) + Times(m.b2, d[2]), (G \div 2) * (m.size[2] + m.cy) + Times(m.f, d[2])>>
(* ---- Matlab: [fc, cc, kc (k1, k2, p1, p2, k3), alpha] from the center of the first pixel ---- *)
MatlabUv(m, x, y) ==
  LET d == Bent(<<m.kc[1], m.kc[2], m.kc[5], 0>>, m.kc[3], m.kc[4], x, y) IN
  <<(G \div 2) * (m.cc[1] + 1) + Times(m.fc[1], d[1]) + Ratio(m.fc[1] * m.alpha * (d[2] \div 4), 256, 0), (G \div 2) * (m.cc[2] + 1) + Times(m.fc[2], d[2])>>
(* ---- OpenCV: [fx, fy, cx, cy, k (6), p1, p2, s (4)] from the corner ----     *)
OpenCVUv(m, x, y) ==
  LET a == R2(x, y) n == Radial(<<m.k[1], m.k[2], m.k[3], 0>>, a) d == Radial(<<m.k[4], m.k[5], m.k[6], 0>>, a)
      Part(v) == IF d = One THEN v * n ELSE Ratio(v * n, d, 14)
      Prism(s, t) == 2 * (64 * s * a + 16 * t * a * a) IN
  <<(G \div 2) * m.cx + Times(m.fx, Part(x) + 2 * Tangent(m.p1, m.p2, x, y, a) + Prism(m.s[1], m.s[2])),
    (G \div 2) * m.cy + Times(m.fy, Part(y) + 2 * Tangent(m.p2, m.p1, y, x, a) + Prism(m.s[3], m.s[4]))>>
(* ---- PhotoModeler: [focal, xp, yp, fw, fh, k (3), p1, p2], from image to normalized coordinates in 1 / G ---- *)
\* Point in millimetres from the principal point, upwards (halves)
Photo(m, u, v) == <<(u * m.fw) \div (2 * m.size[1]) - m.xp, -((v * m.fh) \div (2 * m.size[2]) - m.yp)>>
PhotoXy(m, u, v) ==
  LET p == Photo(m, u, v) d == Bent(<<m.k[1], m.k[2], m.k[3], 0>>, m.p2, m.p1, p[1], p[2]) IN
  <<Ratio(d[1], 4 * m.focal, 0), Ratio(-d[2], 4 * m.focal, 0)>>
(* ---- What is the same in both ----                                          *)
Cam(size, f, c, k, p) == [size |-> size, f |-> f, c |-> c, k |-> k, p |-> p]
\* (lengths of sizes in pixels, all else in halves: half the size is as many halves as pixels)
ToCamera(x) ==
  CASE x.kind = "agisoft" -> Cam(x.size, <<x.f + x.b1, x.f>>, <<x.cx, x.cy>>, <<x.k[1], x.k[2], x.k[3], 0, 0, 0>>, <<x.p2, x.p1>>)
    [] x.kind = "matlab" -> Cam(x.size, x.fc, <<x.cc[1] + 1 - x.size[1], x.cc[2] + 1 - x.size[2]>>, <<x.kc[1], x.kc[2], x.kc[5], 0, 0, 0>>, <<x.kc[3], x.kc[4]>>)
    [] x.kind = "opencv" -> Cam(x.size, <<x.fx, x.fy>>, <<x.cx - x.size[1], x.cy - x.size[2]>>, x.k, <<x.p1, x.p2>>)
    [] OTHER -> Cam(x.size, <<(x.focal * 2 * x.size[1]) \div x.fw, (x.focal * 2 * x.size[2]) \div x.fh>>,
                    <<((2 * x.xp - x.fw) * x.size[1]) \div x.fw, ((2 * x.yp - x.fh) * x.size[2]) \div x.fh>>, <<0, 0, 0, 0, 0, 0>>, <<0, 0>>)
\* (sensor in halves of a millimetre, for PhotoModeler)
FromCamera(kind, m, sensor) ==
  CASE kind = "agisoft" -> [kind |-> kind, size |-> m.size, f |-> m.f[2], cx |-> m.c[1], cy |-> m.c[2], k |-> <<m.k[1], m.k[2], m.k[3], 0>>,
                            p1 |-> m.p[2], p2 |-> m.p[1], b1 |-> m.f[1] - m.f[2], b2 |-> 0]
    [] kind = "matlab" -> [kind |-> kind, size |-> m.size, fc |-> m.f, cc |-> <<m.c[1] - 1 + m.size[1], m.c[2] - 1 + m.size[2]>>,
                           kc |-> <<m.k[1], m.k[2], m.p[1], m.p[2], m.k[3]>>, alpha |-> 0]
    [] kind = "opencv" -> [kind |-> kind, size |-> m.size, fx |-> m.f[1], fy |-> m.f[2], cx |-> m.c[1] + m.size[1], cy |-> m.c[2] + m.size[2],
                           k |-> m.k, p1 |-> m.p[1], p2 |-> m.p[2], s |-> <<0, 0, 0, 0>>]
    [] OTHER -> [kind |-> kind, size |-> m.size, focal |-> ((m.f[1] * sensor[1]) \div (2 * m.size[1]) + (m.f[2] * sensor[2]) \div (2 * m.size[2])) \div 2,
                 xp |-> (m.c[1] * sensor[1]) \div (2 * m.size[1]) + sensor[1] \div 2, yp |-> (m.c[2] * sensor[2]) \div (2 * m.size[2]) + sensor[2] \div 2,
                 fw |-> sensor[1], fh |-> sensor[2], k |-> <<0, 0, 0>>, p1 |-> 0, p2 |-> 0]
Zero(s) == \A i \in DOMAIN s : s[i] = 0
\* Whether there is a camera that is the same
Exact(x) ==
  CASE x.kind = "agisoft" -> x.k[4] = 0 /\ x.b2 = 0 [] x.kind = "matlab" -> x.alpha = 0 [] x.kind = "opencv" -> Zero(x.s)
    [] OTHER -> Zero(x.k) /\ x.p1 = 0 /\ x.p2 = 0
Shared(kind, m) == CASE kind = "opencv" -> TRUE [] kind \in {"agisoft", "matlab"} -> Zero(SubSeq(m.k, 4, 6)) [] OTHER -> Zero(m.k) /\ Zero(m.p)
Uv(x, p) == CASE x.kind = "agisoft" -> AgisoftUv(x, p[1], p[2]) [] x.kind = "matlab" -> MatlabUv(x, p[1], p[2]) [] OTHER -> OpenCVUv(x, p[1], p[2])
Near(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
(* ---- Which parameters are optimized: names in order, requests [name, idx] (none: all of that name) ---- *)
CameraNames == <<"f", "f", "c", "c", "k", "k", "k", "k", "k", "k", "p", "p", "xyz", "xyz", "xyz", "viewdir", "viewdir", "viewdir", "imgsz", "imgsz">>
Names(kind) ==
  CASE kind = "camera" -> CameraNames
    [] kind = "agisoft" -> <<"imgsz", "imgsz", "f", "cx", "cy", "k1", "k2", "k3", "k4", "p1", "p2", "b1", "b2">>
    [] kind = "matlab" -> <<"imgsz", "imgsz", "fc", "fc", "cc", "cc", "kc", "kc", "kc", "kc", "kc", "alpha_c">>
    [] kind = "opencv" -> <<"imgsz", "imgsz", "fx", "fy", "cx", "cy", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s1", "s2", "s3", "s4">>
    [] OTHER -> <<"imgsz", "imgsz", "focal", "xp", "yp", "fw", "fh", "k1", "k2", "k3", "p1", "p2">>
Within(names, i) == Cardinality({j \in 1..(i - 1) : names[j] = names[i]})
Asked(kind, request) == {i \in DOMAIN Names(kind) : \E r \in DOMAIN request :
  Names(kind)[i] = request[r].name /\ (request[r].idx = <<>> \/ \E n \in DOMAIN request[r].idx : request[r].idx[n] = Within(Names(kind), i))}
Named(kind, names) == {i \in DOMAIN Names(kind) : Names(kind)[i] \in names}
\* By default, of the camera that model x is converted to
ToTuned(x) == Named("camera",
  CASE Exact(x) -> {}
    [] x.kind = "agisoft" -> {"k"} \cup (IF x.b2 # 0 THEN {"f", "c"} ELSE {})
    [] x.kind = "matlab" -> {"f", "c", "k", "p"}
    [] x.kind = "opencv" -> {"k", "p"}
    [] OTHER -> (IF Zero(x.k) THEN {} ELSE {"k"}) \cup (IF x.p1 = 0 /\ x.p2 = 0 THEN {} ELSE {"p"}))
\* and of the model that camera m is converted to
Square(m, sensor) == m.f[1] * sensor[1] * m.size[2] = m.f[2] * sensor[2] * m.size[1]
FromTuned(kind, m, sensor) == Named(kind,
  CASE kind = "opencv" -> {}
    [] kind = "agisoft" -> IF Shared(kind, m) THEN {} ELSE {"k1", "k2", "k3"}
    [] kind = "matlab" -> IF Shared(kind, m) THEN {} ELSE {"kc"}
    [] OTHER -> (IF Square(m, sensor) THEN {} ELSE {"focal", "fw", "fh", "xp", "yp"}) \cup (IF Zero(m.k) THEN {} ELSE {"k1", "k2", "k3"})
                \cup (IF Zero(m.p) THEN {} ELSE {"p1", "p2"}))
(* ---- Regular grid of about n points: [nx, ny], spacing 2 du = size / nx ---- *)
Evenly(uv, size, tol) ==
  LET us == {uv[i][1] : i \in DOMAIN uv} vs == {uv[i][2] : i \in DOMAIN uv} nx == Cardinality(us) ny == Cardinality(vs) IN
  /\ Len(uv) = nx * ny /\ Cardinality({uv[i] : i \in DOMAIN uv}) = Len(uv)
  /\ \A u \in us : \E i \in 0..(nx - 1) : Abs(2 * nx * u - (2 * i + 1) * size[1] * G) <= tol * nx
  /\ \A v \in vs : \E j \in 0..(ny - 1) : Abs(2 * ny * v - (2 * j + 1) * size[2] * G) <= tol * ny
\* as close to n points and square cells as rounding allows: nx ~ sqrt(n w / h)
Numbered(uv, size, n) ==
  LET nx == Cardinality({uv[i][1] : i \in DOMAIN uv}) ny == Cardinality({uv[i][2] : i \in DOMAIN uv})
      Close(c, a, b) == 4 * n * a <= (2 * c + 1) * (2 * c + 1) * b /\ (c = 1 \/ (2 * c - 1) * (2 * c - 1) * b <= 4 * n * a) IN
  Close(nx, size[1], size[2]) /\ Close(ny, size[2], size[1])
=============================================================================
