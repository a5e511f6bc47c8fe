---------------------------- MODULE MetadataTrace ----------------------------
(* Files and the metadata in memory, as they are read, edited, and written.    *)
EXTENDS Metadata, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad, disk, mem
If(name, cond) == IF cond THEN {} ELSE {name}
Ev == H[h].ev[l + 1]
Abs(v) == IF v < 0 THEN -v ELSE v
Missing == [time |-> <<>>, sub |-> <<>>, w |-> <<>>, h |-> <<>>, fmm |-> <<>>, exposure |-> <<>>, aperture |-> <<>>, iso |-> <<>>, make |-> <<>>, model |-> <<>>, extra |-> 0, thumb |-> 0]
\* Ratios as observed are reduced
Same(a, b) == IF a = <<>> \/ b = <<>> THEN a = b ELSE Len(a) = 2 /\ a[1] * b[2] = a[2] * b[1]
Agrees(got, t, what) == LET s == Says(t) IN
  If(what \o ": size", got.size = s.size) \cup If(what \o ": time", got.time = s.time) \cup If(what \o ": focal length", Same(got.fmm, s.fmm))
  \cup If(what \o ": exposure", Same(got.exposure, s.exposure)) \cup If(what \o ": aperture", Same(got.aperture, s.aperture)) \cup If(what \o ": iso", got.iso = s.iso)
  \cup If(what \o ": make and model", got.make = s.make /\ got.model = s.model) \cup If(what \o ": sensor size", got.sensor = s.sensor)
  \cup If(what \o ": other tags", got.extra = t.extra) \cup If(what \o ": thumbnail", got.thumb = t.thumb)
Image(e) ==
  LET t == IF e.use = 1 THEN mem ELSE IF e.file > 0 THEN disk[e.file] ELSE Missing s == Says(t)
      reads == Reads(e.g, e.form) c == Camera(e.g, s) lost == reads /\ e.use = 0 /\ e.file = 0 IN
  IF lost THEN If("image: metadata cannot be read", e.err # "")
  ELSE IF e.form = "parameters" /\ ~Usable(c) THEN If("image: camera is not determined", e.err = "ValueError")
  ELSE If("image: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
       If("image: time", e.time = Else(e.g.time, s.time)) \cup If("image: arguments unchanged", e.same = 1)
       \cup If("image: metadata read only if needed", e.exif = (IF e.use = 1 THEN "given" ELSE IF reads THEN "read" ELSE "none"))
       \cup (IF e.form = "camera" THEN {} ELSE If("image: size", e.size = c.size) \cup If("image: sensor size", e.sensor = c.sensor)
             \cup If("image: focal length", \A i \in 1..2 : LET p == Focal(c, i) IN Abs(e.f[i] * p[2] - 1000 * p[1]) <= p[2])))
Judge == LET e == Ev IN
  CASE e.op = "load" -> If("load: no error", e.err = "")
    [] e.op = "read" -> If("read: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE Agrees(e.got, mem, "read"))
    [] e.op = "peek" -> If("stored: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE Agrees(e.got, disk[e.file], "stored"))
    [] e.op = "insert" -> If("insert: no error", e.err = "") \cup If("insert: image unchanged", e.pixels = 1) \cup If("insert: tags unchanged", e.same = 1)
    [] e.op = "image" -> Image(e)
    [] e.op = "tag" -> If("tag: no error", e.err = "") \cup If("tag: value", e.err # "" \/
         (CASE e.kind = "text" -> e.got = Join(Until(e.v)) [] e.kind = "ratio" -> Same(e.got, IF e.v[2] = 0 THEN <<>> ELSE e.v) [] OTHER -> e.got = e.v))
    [] e.op = "refused" -> If("refused: " \o e.what, e.err = "ValueError")
    [] OTHER -> {}
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {} /\ disk = <<Missing, Missing>> /\ mem = Missing
TraceNext == /\ l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge
             /\ disk' = (IF Ev.op = "store" THEN [disk EXCEPT ![Ev.file] = Ev.t] ELSE IF Ev.op = "insert" THEN [disk EXCEPT ![Ev.file] = mem] ELSE disk)
             /\ mem' = (IF Ev.op = "load" THEN [disk[Ev.file] EXCEPT !.thumb = IF Ev.keep = 1 THEN @ ELSE 0] ELSE IF Ev.op = "set" THEN Ev.t ELSE mem)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad, disk, mem>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
