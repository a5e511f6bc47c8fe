-------------------------- MODULE CameraFitTrace ----------------------------
(* A history is one optimization problem: H[h].m (as requested), cams, others *)
(* (cameras of control that are not optimized), ctrls, w (weights).           *)
EXTENDS CameraFit, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, st, bad
Range0(q) == {q[i] : i \in DOMAIN q}
If(name, cond) == IF cond THEN {} ELSE {name}
C(x) == H[x].ctrls
Ok(s, x) == Legal(Concat(s.m.camsel)) /\ Legal(Concat(s.m.groupsel)) /\ ~Rejected(s.m, C(x))
\* Of points in positions index (1-based), in order
Pick(q, index) == [n \in DOMAIN index |-> q[index[n]]]
Lined(x, n) == LET own == Owners(C(x)) IN Used(C(x))[own[n].c].kind = "lines"
SameAt(x, index, a, b) ==
  Len(a) = Len(index) /\ \A n \in DOMAIN a : a[n][2] = b[n][2] /\ (Lined(x, index[n]) \/ a[n][1] = b[n][1])
Abs(v) == IF v < 0 THEN -v ELSE v
Apart(a, b) == SumOver([n \in DOMAIN a |-> Abs(a[n][1] - b[n][1]) + Abs(a[n][2] - b[n][2]) + Abs(a[n][3] - b[n][3])], DOMAIN a)
Judge(e, s, x) ==
  LET m == s.m slots == Slots(m)
      after == IF e.values = <<>> THEN s.cams ELSE Applied(m, s.cams, e.values) IN
  CASE e.op = "new" ->
         IF ~Ok(s, x) THEN If("rejected", e.err \in {"ValueError", "IndexError"})
         ELSE If("not rejected", e.err = "") \cup If("control in use", e.err # "" \/ e.count = Count(C(x)))
    [] e.op = "parse" ->
         IF ~Legal(e.sel) THEN {}
         ELSE If("request: selection", Range0(e.mask) = Mask(e.sel))
              \cup (IF Len(e.min) # NP THEN {"request: bounds"} ELSE If("request: bounds", \A p \in Mask(e.sel) :
                     LET lo == Given(e.sel, p, 1) hi == Given(e.sel, p, 2) IN
                     e.min[p] = (IF lo = NONE THEN NINF ELSE lo) /\ e.max[p] = (IF hi = NONE THEN PINF ELSE hi)))
    [] e.op = "params" ->
         IF Len(e.init) # Len(slots) THEN {"number of parameters"} ELSE
         UNION {LET s1 == slots[n] IN
           If("lower bound", e.min[n] = Lo(m, s1)) \cup If("upper bound", e.max[n] = Hi(m, s1))
           \cup If("initial value", ~MeanExact(Values(m, s1)) \/ Lo(m, s1) > Hi(m, s1) \/ e.init[n] = Initial(m, s1)) : n \in DOMAIN slots}
         \cup If("scale of c, imgsz: as displaced", e.scales = <<>> \/ \A n \in DOMAIN slots :
                (slots[n].pos \in 11..12 => e.scales[n] = U) /\ (slots[n].pos \in 7..8 => e.scales[n] = 2 * U))
         \cup If("scales: those of cameras or the mean of a group", e.scales = <<>> \/ (Len(e.scales) = Len(slots) /\ e.scaled = 1))
         \cup If("pattern of dependence", e.pattern = <<>> \/ \A c \in DOMAIN Used(C(x)) : \A n \in DOMAIN slots :
                Depends(m, slots[n], Used(C(x))[c]) => e.pattern[c][n] = 1)
         \cup If("reading leaves cameras", e.cams = s.cams)
    [] e.op \in {"set", "reset", "edit", "update"} ->
         If(e.op \o ": no error", e.err = "")
         \cup If(e.op \o ": cameras", e.cams = CASE e.op = "set" -> after [] e.op = "reset" -> s.saved [] e.op = "edit" -> e.new [] OTHER -> s.cams)
         \cup If(e.op \o ": other cameras", e.others = H[x].others)
    [] e.op = "look" ->
         LET res == Residuals(C(x), H[x].w, after, H[x].others) IN
         If("look: no error", e.err = "")
         \cup (IF e.err # "" THEN {} ELSE
               If("observed", e.observed = Pick(Observed(C(x)), e.index))
               \cup If("predicted", SameAt(x, e.index, e.predicted, Pick(Predicted(C(x), after, H[x].others), e.index)))
               \cup If("residuals", SameAt(x, e.index, e.residuals, Pick(res, e.index)))
               \cup If("errors are lengths of residuals", e.errors = 1))
         \cup If("look: cameras", e.cams = s.cams /\ e.others = H[x].others)
    [] e.op = "fail" -> If("failure reported", e.err = "RuntimeError") \cup If("failure: cameras", e.cams = s.cams /\ e.others = H[x].others)
    [] e.op = "draw" -> If("draw: no error", e.err = "") \cup If("draw: cameras", e.cams = s.cams /\ e.others = H[x].others)
    [] e.op = "fit" ->
         \* e.via: cameras after each earlier iteration, with its own request and result
         LET start == IF e.via = <<>> THEN s.cams ELSE e.via[Len(e.via)].cams IN
         If("fit: no error", e.err = "")
         \cup If("fit: cameras", e.cams = s.cams /\ e.others = H[x].others)
         \cup UNION {LET v == e.via[j] before == IF j = 1 THEN s.cams ELSE e.via[j - 1].cams IN
                If("iteration: best", e.exact = 0 \/ Optimal(v.m, C(x), H[x].w, Range0(e.index), v.values, before, H[x].others))
                \cup If("iteration: applied", v.cams = Applied(v.m, before, v.values)) : j \in DOMAIN e.via}
         \cup (IF e.err # "" THEN {} ELSE IF e.unfinished = 1 THEN If("no result of an unfinished fit", e.values = <<>>)
               ELSE IF Len(e.values) # Len(slots) THEN {"fit: number of values"} ELSE
               If("fit: within bounds", \A n \in DOMAIN slots : Lo(m, slots[n]) <= e.values[n] /\ e.values[n] <= Hi(m, slots[n]))
               \cup If("fit: as one after another", e.chained = <<>> \/ \A n \in DOMAIN slots : Abs(e.values[n] - e.chained[n]) <= 1)
               \cup If("fit: best", e.exact = 0 \/ Optimal(m, C(x), H[x].w, Range0(e.index), e.values, start, H[x].others))
               \cup If("fit: result reproduces residuals", e.full = 0 \/ e.reproduced = 1))
    [] e.op = "orient" ->
         \* view directions of the cameras of an observer
         If("orient: no error", e.err = e.expect)
         \cup If("orient: cameras", e.after = e.before)
         \cup If("orient: anchors", e.err # "" \/ \A n \in Range0(e.anchors) : e.result[n] = e.original[n])
         \cup If("orient: towards agreement", e.err # "" \/ 4 * Apart(e.result, e.truth) <= 3 * Apart(e.before, e.truth))
    [] OTHER -> {"unknown"}
Post(e, s, x) ==
  CASE e.op = "set" -> LET a == IF e.values = <<>> THEN s.cams ELSE Applied(s.m, s.cams, e.values) IN
                       [s EXCEPT !.cams = a, !.saved = IF e.save = 1 THEN a ELSE @]
    [] e.op = "reset" -> [s EXCEPT !.cams = s.saved]
    [] e.op = "edit" -> [s EXCEPT !.cams = e.new]
    [] e.op = "update" -> [s EXCEPT !.m.built = s.cams]
    [] OTHER -> s
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {} /\ st = [m |-> H[h].m, cams |-> H[h].cams, saved |-> H[h].cams]
TraceNext == LET e == H[h].ev[l + 1] IN
  l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(e, st, h) /\ st' = Post(e, st, h)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, st, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
