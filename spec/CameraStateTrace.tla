-------------------------- MODULE CameraStateTrace --------------------------
EXTENDS CameraState, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, st, bad
Range0(q) == {q[i] : i \in DOMAIN q}
If(name, cond) == IF cond THEN {} ELSE {name}
Attrs == {"xyz", "viewdir", "imgsz", "f", "c", "k", "p", "sensorsz"}
Post(s, e) == IF e.op \in {"copy", "load"} THEN Append(s, After(s[e.obj], e)) ELSE IF e.obj = 0 THEN s ELSE [s EXCEPT ![e.obj] = After(@, e)]
Judge(e, s) ==
  LET t == Post(s, e) rej == e.obj > 0 /\ Rejected(s[e.obj], e) IN
  (IF rej THEN If(e.op \o ": rejected", e.err = "ValueError") ELSE If(e.op \o ": no error", e.err = ""))
  \cup (IF Len(e.cams) # Len(t) THEN {"number of cameras"} ELSE
    UNION {UNION {If(e.op \o " " \o e.attr \o ": " \o a \o IF i = e.obj THEN "" ELSE " of another camera", e.cams[i][a] = t[i].cam[a]) : a \in Attrs}
           \cup If("focal length in millimetres", e.cams[i].fmm = InMM(t[i].cam, t[i].cam.f))
           \cup If("principal point in millimetres", e.cams[i].cmm = InMM(t[i].cam, t[i].cam.c))
           \cup If("vector of parameters", e.cams[i].vector = 1)
           : i \in DOMAIN t})
  \cup If("inputs are not changed", e.kept = 1)
  \cup UNION {If("derived as by a new camera: " \o d, d \notin Range0(e.stale)) : d \in Range0(e.stale)}
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {} /\ st = [i \in DOMAIN H[h].cams |-> Fresh(H[h].cams[i])]
TraceNext == LET e == H[h].ev[l + 1] IN
  l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(e, st) /\ st' = Post(st, e)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, st, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
