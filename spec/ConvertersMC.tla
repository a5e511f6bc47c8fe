---------------------------- MODULE ConvertersMC -----------------------------
(* Every model of a small set, converted to a camera and back.                *)
EXTENDS Converters, Json, TLC
CONSTANTS Full
VARIABLES x, m
Size == <<16, 8>>
\* None, one and all coefficients
Hot(n, v) == {[i \in 1..n |-> 0], [i \in 1..n |-> v + i - 1]} \cup {[i \in 1..n |-> IF i = j THEN v ELSE 0] : j \in 1..n}
Some(a, b) == IF Full THEN {a, b} ELSE {b}
Agisofts == [kind : {"agisoft"}, size : {Size}, f : {16, 32}, cx : Some(0, -2), cy : Some(0, 3), k : Hot(4, 2), p1 : {0, 3}, p2 : {0, -2}, b1 : {0, 2}, b2 : {0, 2}]
Matlabs == [kind : {"matlab"}, size : {Size}, fc : {<<16, 16>>, <<16, 32>>}, cc : {<<15, 7>>, <<17, 4>>}, kc : Hot(5, 2), alpha : {0, 16, -4}]
OpenCVs == [kind : {"opencv"}, size : {Size}, fx : {16, 32}, fy : Some(16, 32), cx : Some(16, 13), cy : Some(8, 9), k : Hot(6, 2), p1 : {0, 3}, p2 : {0, -2}, s : Hot(4, 2)]
Photos == [kind : {"photomodeler"}, size : {Size}, focal : {8, 16}, xp : {4, 6}, yp : {2, 3}, fw : {8, 16}, fh : {4, 8}, k : Hot(3, 1), p1 : {0, 3}, p2 : {0, -2}]
Init == x \in Agisofts \cup Matlabs \cup OpenCVs \cup Photos /\ m = <<>>
Next == m = <<>> /\ m' = <<ToCamera(x)>> /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, m>>
Points == {<<a, b>> : a \in -2..2, b \in -2..2}
Sensor == IF x.kind = "photomodeler" THEN <<x.fw, x.fh>> ELSE <<0, 0>>
Preserved == m # <<>> /\ Exact(x) =>
  IF x.kind = "photomodeler" THEN \A u \in {0, 4, 8}, v \in {0, 4, 8} : LET xy == PhotoXy(x, u, v) IN
       m[1].f[1] * xy[1] = (u - m[1].size[1] - m[1].c[1]) * G /\ m[1].f[2] * xy[2] = (v - m[1].size[2] - m[1].c[2]) * G
  ELSE \A p \in Points : Uv(x, p) = CameraUv(m[1], p[1], p[2])
\* There is no other camera with the same parameters
Different == m # <<>> /\ ~Exact(x) /\ x.kind # "photomodeler" => \E p \in Points : Uv(x, p) # CameraUv(m[1], p[1], p[2])
Back == m # <<>> /\ Exact(x) => FromCamera(x.kind, m[1], Sensor) = x
Forth == m # <<>> => \A kind \in {"agisoft", "matlab", "opencv"} : Shared(kind, m[1]) => ToCamera(FromCamera(kind, m[1], Sensor)) = m[1]
Tuned == (ToTuned(x) = {}) = Exact(x)
Emit == m = <<>> => PrintT(ToJson(x))
=============================================================================
