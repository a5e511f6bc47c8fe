--------------------------- MODULE ReadCacheTrace ---------------------------
EXTENDS ReadCache, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, st, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Judge(e, s, view) ==
  If(e.op \o ": no error", e.err = "")
  \cup If("pixels returned earlier are not changed", e.stable = 1)
  \cup (IF e.err # "" THEN {} ELSE
    CASE e.op = "read" ->
         If("read: pixels of the file", \E v \in Versions(s, e.cache) : e.out = Pixels(view, s.m, v, e.box))
         \cup If("read: data type of the file", e.dtype = 1)
      [] e.op = "value" ->
         If("read: pixels of the file", e.out = Pixels(view, s.m, IF Usable(s) THEN s.kept ELSE s.file, e.box))
      [] OTHER -> {})
Post(s, e) == IF e.err # "" THEN s ELSE IF e.op = "value" THEN AfterRead(s, 1) ELSE After(s, e)
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {} /\ st = [i \in DOMAIN H[h].views |-> Fresh(H[h].views[i])]
TraceNext == LET e == H[h].ev[l + 1] IN
  l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h
  /\ bad' = Judge(e, st[e.obj], H[h].views[e.obj])
  /\ st' = [st EXCEPT ![e.obj] = Post(@, e)]
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, st, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
