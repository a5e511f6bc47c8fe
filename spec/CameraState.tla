---------------------------- MODULE CameraState -----------------------------
(* The parameters of a camera under edits (C12). All parameters are in units *)
(* of 1 / Q, but the image size sz; s is the sensor size (empty if unknown).  *)
EXTENDS Integers, Sequences
Q0 == 16384
Fill(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]
Repeat(v, n) == [i \in 1..n |-> v[((i - 1) % Len(v)) + 1]]
Fresh(cam) == [cam |-> cam, orig |-> cam]
Set(cam, attr, v) ==
  CASE attr = "xyz" -> [cam EXCEPT !.xyz = Fill(v, 3)]
    [] attr = "viewdir" -> [cam EXCEPT !.viewdir = Fill(v, 3)]
    [] attr = "imgsz" -> [cam EXCEPT !.imgsz = Repeat(v, 2)]
    [] attr = "f" -> [cam EXCEPT !.f = Repeat(v, 2)]
    [] attr = "c" -> [cam EXCEPT !.c = Fill(v, 2)]
    [] attr = "k" -> [cam EXCEPT !.k = Fill(v, 6)]
    [] attr = "p" -> [cam EXCEPT !.p = Fill(v, 2)]
    [] attr = "sensorsz" -> [cam EXCEPT !.sensorsz = IF v = <<>> THEN v ELSE Repeat(v, 2)]
    [] attr = "fmm" -> [cam EXCEPT !.f = [i \in 1..2 |-> (Repeat(v, 2)[i] * cam.imgsz[i]) \div (cam.sensorsz[i] \div Q0)]]
    [] attr = "cmm" -> [cam EXCEPT !.c = [i \in 1..2 |-> (Fill(v, 2)[i] * cam.imgsz[i]) \div (cam.sensorsz[i] \div Q0)]]
SetItem(cam, attr, i, v) ==
  CASE attr = "xyz" -> [cam EXCEPT !.xyz[i] = v] [] attr = "viewdir" -> [cam EXCEPT !.viewdir[i] = v]
    [] attr = "f" -> [cam EXCEPT !.f[i] = v] [] attr = "c" -> [cam EXCEPT !.c[i] = v]
    [] attr = "k" -> [cam EXCEPT !.k[i] = v] [] attr = "p" -> [cam EXCEPT !.p[i] = v]
InMM(cam, v) == IF cam.sensorsz = <<>> THEN <<>> ELSE [i \in 1..2 |-> (v[i] * (cam.sensorsz[i] \div Q0)) \div cam.imgsz[i]]
(* Target image size: a multiple num / den of the original size, rounded, or *)
(* a size of the same aspect (any, if forced).                               *)
Times(sz, num, den) == [i \in 1..2 |-> (2 * sz[i] * num + den) \div (2 * den)]
Aspect(a, b) == a[1] * b[2] = a[2] * b[1]
Resized(cam, sz) ==
  [cam EXCEPT !.imgsz = sz, !.f = [i \in 1..2 |-> (@[i] * sz[i]) \div cam.imgsz[i]],
              !.c = [i \in 1..2 |-> (@[i] * sz[i]) \div cam.imgsz[i]]]
Ideal(cam) == [cam EXCEPT !.k = Fill(<<>>, 6), !.p = Fill(<<>>, 2), !.c = Fill(<<>>, 2)]
Reset(st) == [st EXCEPT !.cam = [st.orig EXCEPT !.sensorsz = st.cam.sensorsz]]
(* Requests that are rejected, leaving the camera as it was *)
Rejected(st, e) ==
  \/ e.op = "set" /\ e.attr \in {"fmm", "cmm"} /\ st.cam.sensorsz = <<>>
  \/ e.op = "fraction"
  \/ e.op = "size" /\ e.force = 0 /\ ~Aspect(st.orig.imgsz, e.v)
After(st, e) ==
  IF Rejected(st, e) THEN st ELSE
  CASE e.op = "set" -> [st EXCEPT !.cam = Set(@, e.attr, e.v)]
    [] e.op = "item" -> [st EXCEPT !.cam = SetItem(@, e.attr, e.i, e.v[1])]
    [] e.op = "factor" -> [st EXCEPT !.cam = Resized(@, Times(st.orig.imgsz, e.v[1], e.v[2]))]
    [] e.op = "size" -> [st EXCEPT !.cam = Resized(@, e.v)]
    [] e.op = "reset" -> Reset(st)
    [] e.op = "idealize" -> [st EXCEPT !.cam = Ideal(@)]
    [] e.op = "copy" -> Fresh(st.cam)
    [] e.op = "load" -> Fresh([st.cam EXCEPT !.sensorsz = IF e.force = 1 THEN @ ELSE <<>>])
    [] OTHER -> st
=============================================================================
