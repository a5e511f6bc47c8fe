----------------------------- MODULE TracksTrace -----------------------------
EXTENDS Tracks, Json, TLC
\* NB velocities of particles are per unit of time
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Set(s) == {s[i] : i \in DOMAIN s}
Sum3(e) ==
  LET M == H[h].M S == H[h].S IN
  If("times", e.times = H[h].days) \cup If("positions", e.xyz = Part(M, Position)) \cup If("velocities", e.vxyz = Part(M, Velocity))
  \cup (IF e.kept = "none" THEN If("no deviations", e.sxyz = <<>> /\ e.svxyz = <<>>)
        ELSE If("deviations of positions", e.sxyz = Part(S, Position)) \cup If("deviations of velocities", e.svxyz = Part(S, Velocity)))
  \cup If("success", IF e.failed = <<>> THEN e.success = <<>> ELSE e.success = [i \in DOMAIN e.failed |-> 1 - e.failed[i]])
Frame(e, f) == LET M == H[h].M days == H[h].days t == f.i + 1 now == M[e.track][t] 
                   path == [k \in 1..t |-> IF M[e.track][k] = <<>> THEN <<NAN, NAN>> ELSE SubSeq(M[e.track][k], 1, 2)]
                   dt == IF e.scaled = 1 THEN Until(M, e.images, days, e.track, Set(e.wanted), f.i) ELSE H[h].unit
                   Scaled(v) == IF (v * dt) % H[h].unit = 0 THEN (v * dt) \div H[h].unit ELSE INEXACT IN
  If("frame: label", f.label = e.names[e.images[t] + 1])
  \cup If("frame: path", f.path = path)
  \cup If("frame: velocity", f.arrow = <<now[1], now[2], Scaled(now[4]), Scaled(now[5])>>)
  \cup If("frame: particles", e.particles = 0 \/ f.swarm = [k \in DOMAIN e.cloud[t] |-> <<e.cloud[t][k][1], e.cloud[t][k][2], Scaled(e.cloud[t][k][3]), Scaled(e.cloud[t][k][4]), e.cloud[t][k][5]>>])
  \cup If("frame: map", f.limits = <<<<2 * now[1] - e.map[1], 2 * now[1] + e.map[1]>>, <<2 * now[2] - e.map[2], 2 * now[2] + e.map[2]>>>>)
  \cup (IF e.views = 0 THEN {} ELSE
        LET cam == e.cams[e.images[t] + 1] uv == Seen(cam, e.size, now) IN
        If("frame: path in image", f.uvs = [k \in 1..t |-> IF M[e.track][k] = <<>> THEN <<NAN, NAN>> ELSE Seen(cam, e.size, M[e.track][k])])
        \cup If("frame: point in image", f.point = uv) \cup If("frame: tile", f.box = Around(uv, e.tile) /\ f.tile = 1)
        \cup If("frame: view", f.view = <<<<2 * uv[1] - e.tile[1], 2 * uv[1] + e.tile[1]>>, <<2 * uv[2] + e.tile[2], 2 * uv[2] - e.tile[2]>>>>)
        \cup If("frame: particles in image", e.particles = 0 \/ f.dots = [k \in DOMAIN e.cloud[t] |-> Append(Seen(cam, e.size, e.cloud[t][k]), e.cloud[t][k][5])]))
Animate(e) == LET want == Frames(H[h].M, e.images, e.track, Set(e.wanted)) IN
  If("animate: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
    If("animate: frames", [k \in DOMAIN e.frames |-> e.frames[k].i] = want)
    \cup (IF [k \in DOMAIN e.frames |-> e.frames[k].i] # want THEN {} ELSE UNION {Frame(e, e.frames[k]) : k \in DOMAIN e.frames}))
Judge(e) == LET M == H[h].M S == H[h].S days == H[h].days n == Len(M) IN
  CASE e.op = "summary" -> Sum3(e)
    [] e.op = "ends" -> If("ends", e.err = "" /\ e.got = Ends(M, Chosen(e.sel, n)))
    [] e.op = "xy" -> LET c == Chosen(e.sel, n) IN If("xy: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("xy: what is plotted", Set(e.keys) = Set(e.want) /\ e.alone = 1)
         \cup If("xy: paths", "mean" \notin Set(e.want) \/ e.mean = [k \in DOMAIN c |-> Line(M, c[k], 1, 2)])
         \cup If("xy: starts", "start" \notin Set(e.want) \/ e.start = SelectSeq([k \in DOMAIN c |-> Line(M, c[k], 1, 2)[1]], LAMBDA p : p[1] # NAN))
         \cup If("xy: deviations", "sigma" \notin Set(e.want) \/ e.sigma = [k \in DOMAIN c |-> Bars(M, S, c[k])])
         \cup If("xy: style", e.style = 1))
    [] e.op = "vxy" -> LET c == Chosen(e.sel, n) IN If("vxy: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("vxy: arrows", e.got = [k \in DOMAIN c |-> Arrows(M, c[k])]))
    [] e.op = "v1d" -> LET c == Chosen(e.sel, n) d == 4 + e.dim IN If("v1d: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("v1d: what is plotted", Set(e.keys) = Set(e.want))
         \cup If("v1d: lines", "mean" \notin Set(e.want) \/ e.mean = [k \in DOMAIN c |-> Series(M, days, c[k], d)])
         \cup If("v1d: bands", "sigma" \notin Set(e.want) \/ (Len(e.sigma) = Len(c) /\ \A k \in DOMAIN c : Set(e.sigma[k]) = Band(M, S, days, c[k], d)))
         \cup If("v1d: style", e.style = 1))
    [] e.op = "animate" -> Animate(e)
    [] e.op = "still" -> If("still: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("still: frames", [k \in DOMAIN e.frames |-> e.frames[k].i] = e.wanted)
         \cup UNION {LET f == e.frames[k] uv == <<e.uv[1] + e.cams[f.i + 1][3] - e.cams[e.wanted[1] + 1][3], e.uv[2] + e.cams[f.i + 1][4] - e.cams[e.wanted[1] + 1][4]>> IN
              If("still: points", f.points = <<uv, uv>>) \cup If("still: tile", f.box = Cut(Around(uv, e.tile), e.size) /\ f.tile = 1)
              \cup If("still: views", f.left = <<<<2 * uv[1] - e.tile[1], 2 * uv[1] + e.tile[1]>>, <<2 * uv[2] + e.tile[2], 2 * uv[2] - e.tile[2]>>>>
                   /\ f.right = <<<<2 * e.uv[1] - e.tile[1], 2 * e.uv[1] + e.tile[1]>>, <<2 * e.uv[2] + e.tile[2], 2 * e.uv[2] - e.tile[2]>>>>) : k \in DOMAIN e.frames})
    [] e.op = "moving" -> If("moving: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("moving: frames", [k \in DOMAIN e.frames |-> e.frames[k].i] = e.wanted)
         \cup UNION {LET f == e.frames[k] cam == e.cams[f.i + 1] first == Seen(e.cams[e.wanted[1] + 1], e.size, e.points[1]) uv == Seen(cam, e.size, e.points[k]) IN
              If("moving: path", f.path = [j \in 1..k |-> Seen(cam, e.size, e.points[j])]) \cup If("moving: points", f.points = <<first, uv>>)
              \cup If("moving: tile", f.box = Around(uv, e.tile) /\ f.tile = 1) \cup If("moving: first tile", f.first = Around(first, e.tile)) : k \in DOMAIN e.frames})
    [] e.op = "tile" -> If("tile: extent", e.err = "" /\ e.got = IF e.box = <<>> THEN <<0, e.size[1], e.size[2], 0>> ELSE <<e.box[1], e.box[3], e.box[4], e.box[2]>>)
    [] OTHER -> {"unknown"}
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
