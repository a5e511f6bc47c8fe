---------------------------- MODULE ControlTrace ----------------------------
EXTENDS Control, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, st, bad
If(name, cond) == IF cond THEN {} ELSE {name}
\* (nothing, if there are fewer)
Pick(q, index) == IF \E n \in DOMAIN index : index[n] > Len(q) THEN <<-1>> ELSE [n \in DOMAIN index |-> q[index[n]]]
\* st: cameras and controls, all of which are compared after every event
NewControl(s, e) ==
  [kind |-> e.kind, cams |-> e.on, uvs |-> e.uvs, w |-> e.w, has |-> e.has, dir |-> e.dir, xyz |-> e.xyz, axis |-> e.axis,
   last |-> [i \in DOMAIN e.on |-> s.cams[e.on[i]].imgsz], at |-> s.cams[e.on[1]].xyz, int |-> [i \in DOMAIN e.on |-> Internals(s.cams[e.on[i]])]]
Invalid(s, e) ==
  IF Pair(e.kind) THEN Len(e.on) # 2 \/ Len(e.uvs) # 2 \/ e.on[1] = e.on[2] \/ Len(e.uvs[1]) # Len(e.uvs[2])
                       \/ (e.kind = "Matches" /\ s.cams[e.on[1]].xyz # s.cams[e.on[2]].xyz)
  ELSE e.kind = "Points" /\ Len(e.uvs[1]) # Len(e.xyz)
Err(s, e) ==
  CASE e.op = "new" -> Invalid(s, e)
    [] e.op = "look" -> Refused(s.cams, s.ctrls[e.obj])
    [] e.op = "filter" -> FilterRefused(s.cams, s.ctrls[e.obj], e)
    [] e.op = "convert" -> LET c == s.ctrls[e.obj] IN c.kind # e.kind /\ e.kind = "Matches" /\ Moved(s.cams, c)
    [] OTHER -> FALSE
Post(s, e) ==
  IF Err(s, e) THEN s ELSE
  CASE e.op = "new" -> [s EXCEPT !.ctrls = Append(@, NewControl(s, e))]
    [] e.op = "camera" -> [s EXCEPT !.cams[e.cam] = Resized(@, e.num, e.den)]
    [] e.op = "edit" -> [s EXCEPT !.cams[e.cam][e.attr] = e.v]
    [] e.op = "resize" -> LET c == ResizeCams(s.cams, s.ctrls[e.obj], e.num, e.den) IN [s EXCEPT !.cams = c, !.ctrls[e.obj] = Followed(c, @)]
    [] e.op = "follow" -> [s EXCEPT !.ctrls[e.obj] = Followed(s.cams, @)]
    [] e.op = "filter" ->
         LET c == s.ctrls[e.obj] In(slack) == {n \in DOMAIN c.uvs[1] : Keep(s.cams, c, e, n, slack)} IN
         \* (as observed, if only pairs at the very limit are at issue)
         IF In(TRUE) # In(FALSE) /\ \E S \in SUBSET In(TRUE) : In(FALSE) \subseteq S /\ e.ctrls[e.obj].uvs = Only(c, S).uvs /\ e.ctrls[e.obj].w = Only(c, S).w
         THEN [s EXCEPT !.ctrls[e.obj] = [@ EXCEPT !.uvs = e.ctrls[e.obj].uvs, !.w = e.ctrls[e.obj].w]]
         ELSE [s EXCEPT !.ctrls[e.obj] = Filtered(s.cams, @, e)]
    [] e.op = "convert" -> [s EXCEPT !.ctrls = IF e.kind = s.ctrls[e.obj].kind THEN @ ELSE Append(@, Converted(s.cams, s.ctrls[e.obj], e.kind))]
    [] OTHER -> s
Judge(e, s) ==
  LET t == Post(s, e) err == Err(s, e) IN
  If("given arrays", e.given = 1) \cup If("given arrays", e.given = 1) \cup (IF err THEN If(e.op \o ": refused", e.err = "ValueError") ELSE If(e.op \o ": no error", e.err = ""))
  \cup (IF Len(e.ctrls) # Len(t.ctrls) THEN {"number of controls"} ELSE
    UNION {If(e.op \o ": image points" \o IF i = e.obj THEN "" ELSE " of another", e.ctrls[i].uvs = <<>> \/ e.ctrls[i].uvs = t.ctrls[i].uvs)
           \cup If(e.op \o ": weights", e.ctrls[i].w = t.ctrls[i].w /\ e.ctrls[i].has = t.ctrls[i].has)
           \cup If(e.op \o ": number", e.ctrls[i].size = Len(t.ctrls[i].uvs[1]))
           \cup If(e.op \o ": kind", e.ctrls[i].kind = t.ctrls[i].kind) : i \in DOMAIN t.ctrls})
  \cup UNION {If(e.op \o ": cameras", e.cams[i].imgsz = t.cams[i].imgsz /\ e.cams[i].f = t.cams[i].f /\ e.cams[i].c = t.cams[i].c /\ e.cams[i].roll = t.cams[i].roll /\ e.cams[i].roll = t.cams[i].roll /\ e.cams[i].xyz = t.cams[i].xyz) : i \in DOMAIN t.cams}
  \cup (IF e.op # "look" \/ err \/ e.err # "" THEN {} ELSE
    LET c == s.ctrls[e.obj] IN
    IF Pair(c.kind) THEN
      If("observed", c.kind = "RotationMatchesXYZ" \/ e.observed = Pick(ObservedPair(s.cams, c, e.side), e.index))
      \cup If("predicted", e.predicted = Pick(PredictedPair(s.cams, c, e.side), e.index))
    ELSE
      If("observed", e.observed = Pick(c.uvs[1], e.index))
      \cup If("predicted", Len(e.predicted) = Len(e.index) /\ (\A n \in DOMAIN e.index : e.index[n] <= Len(c.uvs[1])) /\
           IF c.kind = "Points" THEN LET cam == s.cams[c.cams[1]] IN
             e.predicted = [n \in DOMAIN e.index |-> Seen(cam, c.xyz[e.index[n]], From(cam, c))]
           ELSE \A n \in DOMAIN e.index : Nearest(s.cams, c, e.index[n], e.predicted[n])))
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {} /\ st = [cams |-> H[h].cams, ctrls |-> <<>>]
TraceNext == LET e == H[h].ev[l + 1] IN
  l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(e, st) /\ st' = Post(st, e)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, st, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
