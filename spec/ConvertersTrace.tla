--------------------------- MODULE ConvertersTrace ---------------------------
EXTENDS Converters, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Unchanged(e, except) == Len(e.after) = Len(e.before) /\ \A i \in DOMAIN e.before : i \in except \/ e.after[i] = e.before[i]
\* e.misfit: at the result, at the start, and around the result in each parameter
\* (up to 0.1 %, or 10 to 25 % where the six radial coefficients of a camera make nearly the same)
Slack(e, free, i) == IF Len(e.before) = Len(CameraNames) /\ 8..10 \cap free # {} THEN (IF i \in 5..10 THEN 4 ELSE 10) ELSE 1000
Least(e, free) == e.misfit.at - e.misfit.at \div 100 <= e.misfit.start
  /\ \A i \in free : e.misfit.at - e.misfit.at \div Slack(e, free, i) <= e.misfit.near[i]
Judge(e) ==
  CASE e.op = "project" -> If("no error", e.err = "") \cup If("projected", e.err # "" \/
         (Len(e.uv) = Len(e.points) /\ \A i \in DOMAIN e.points : Near(e.uv[i], Uv(e.x, e.points[i]), 6)))
    [] e.op = "photo" -> If("no error", e.err = "") \cup If("inverse projected", e.err # "" \/
         (Len(e.xy) = Len(e.points) /\ \A i \in DOMAIN e.points : Near(e.xy[i], PhotoXy(e.x, e.points[i][1], e.points[i][2]), 3)))
    [] e.op = "camera" -> If("no error", e.err = "") \cup If("projected by camera", e.err # "" \/
         (Len(e.uv) = Len(e.points) /\ \A i \in DOMAIN e.points : Near(e.uv[i], CameraUv(e.m, e.points[i][1], e.points[i][2]), 6)))
    [] e.op = "to" -> If("to camera: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("to camera", (e.optimize = 1 /\ ~Exact(e.x)) \/ e.m = ToCamera(e.x)) \cup If("to camera: model unchanged", e.left = e.x)
         \cup If("to camera: sensor", e.x.kind # "photomodeler" \/ e.sensor = <<e.x.fw, e.x.fh>>))
    [] e.op = "from" -> If("from camera: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("from camera", (e.optimize = 1 /\ FromTuned(e.kind, e.m, e.sensor) # {}) \/ e.x = FromCamera(e.kind, e.m, e.sensor))
         \cup If("from camera: camera unchanged", e.left = e.m))
    [] e.op = "round" -> If("round trip: no error", e.err = "") \cup If("round trip", e.err # "" \/ e.back = e.x)
    \* By default
    \* (fits of all six radial coefficients may diverge)
    [] e.op = "totuned" -> If("optimized: no error", e.err = "" \/ (e.err = "ValueError" /\ 8 \in ToTuned(e.x))) \cup (IF e.err # "" THEN {} ELSE
         If("optimized: camera parameters", Unchanged(e, ToTuned(e.x))) \cup If("optimized: least", Least(e, ToTuned(e.x))))
    [] e.op = "fromtuned" -> If("optimized: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("optimized: model parameters", Unchanged(e, FromTuned(e.kind, e.m, e.sensor))) \cup If("optimized: least", Least(e, FromTuned(e.kind, e.m, e.sensor))))
    \* As requested
    [] e.op = "asked" -> If("requested: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("requested: other parameters", Unchanged(e, Asked(e.kind, e.request))) \cup If("requested: least", Least(e, Asked(e.kind, e.request))))
    [] e.op = "recover" -> If("recovered: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("recovered: other parameters", Unchanged(e, Asked(e.kind, e.request)))
         \cup If("recovered", Len(e.after) = Len(e.true) /\ \A i \in DOMAIN e.true : Abs(e.after[i] - e.true[i]) <= 2))
    [] e.op = "file" -> If("file: no error", e.err = "") \cup If("file", e.err # "" \/ e.got = e.given)
    [] e.op = "grid" -> If("points: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("points: regular", Evenly(e.uv, e.size, 2)) \cup If("points: number", Numbered(e.uv, e.size, e.n)))
    [] e.op = "refused" -> If("refused: " \o e.what, e.err = e.expected)
    [] OTHER -> {"unknown"}
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
