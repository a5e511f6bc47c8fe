--------------------------- MODULE DatetimesTrace ---------------------------
(* Judges recorded calls against Datetimes.                                  *)
EXTENDS Datetimes, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
vars == <<h, l, bad>>
No == 2000000005
If(name, cond) == IF cond THEN {} ELSE {name}
Judge(e) ==
  CASE e.op = "parse" ->
       LET r == Parse(e.obs, e.req, e.maxdt) IN
       If("parse: rejected exactly if not monotonic or too few", e.err = r.err)
       \cup If("parse: times kept", r.err # "" \/ e.err # "" \/ e.out = r.out)
       \cup If("parse: warned exactly if any are dropped", r.err # "" \/ e.warned = r.warned)
    [] e.op = "match" ->
       If("match: no error", e.err = "") \cup If("match: nearest image within tolerance or none", e.out = Match(e.obs, e.req, e.maxdt))
    [] e.op = "times" -> If("union of observation times", e.out = Sorted(UnionAll(e.obs)))
    [] e.op = "observer" ->
       If("observer: rejected exactly if invalid", e.err = ObserverErr(e.ts, No))
       \cup If("observer: keeps images and times", e.err # "" \/ e.out = e.ts)
    [] e.op = "index" ->
       LET r == Index(e.ts, e.t, e.maxdt, No) IN
       If("index: rejected exactly if out of range", e.err = r.err) \cup If("index: nearest", e.err # "" \/ e.out = r.out)
    [] e.op = "find" ->
       If("find: position of the image", IF e.i < 0 THEN e.err = "ValueError" ELSE e.err = "" /\ e.out = e.i)
    [] e.op = "select" ->
       LET r == Select(e.ts, e.start, e.end, e.snap, e.maxdt, e.origin, No) IN
       If("select: rejected exactly if start is after end", e.err = r.err) \cup If("select: times selected", e.err # "" \/ e.out = r.out)
    [] e.op = "subset" ->
       LET r == Subset(e.ts, e.start, e.end, e.snap, e.maxdt, e.origin, No) IN
       If("subset: rejected exactly if invalid", e.err = r.err) \cup If("subset: images selected", e.err # "" \/ e.out = r.out)
       \cup If("subset: keeps settings", e.err # "" \/ e.kept = 1)
       \cup If("subset: observer unchanged", e.same = 1)
    [] e.op = "split" ->
       LET r == IF e.n > 0 THEN SplitN(e.ts, e.n, e.overlap) ELSE Split(e.ts, e.brk, 1, e.overlap) IN
       If("split: rejected exactly if invalid", e.err = r.err) \cup If("split: images of each part", e.err # "" \/ e.out = r.out)
       \cup If("split: keeps settings", e.err # "" \/ e.kept = 1)
       \cup If("split: observer unchanged", e.same = 1)
    [] e.op = "range" -> If("range: evenly spaced within bounds", e.err = "" /\ e.out = DatetimeRange(e.start, e.stop, e.step))
    [] e.op = "nearest" ->
       If("nearest: index of nearest value", e.err = "" /\ e.out = [i \in DOMAIN e.y |-> Nearest(e.x, e.y[i])])
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_vars
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
