---------------------------- MODULE StorageTrace ----------------------------
EXTENDS Storage, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, f, bad
If(name, cond) == IF cond THEN {} ELSE {name}
JudgeGrid(f0, e, o) ==
  If("size of the part read", o.n = <<PartSize(f0, 1, e.xl, e.d), PartSize(f0, 2, e.yl, e.d)>>)
  \cup If("limits of the part read", o.xl = PartLimits(f0, 1, e.xl) /\ o.yl = PartLimits(f0, 2, e.yl))
  \cup If("coordinate system", o.crs = f0.crs)
Judge(e, f0) ==
  IF e.op = "reject" THEN If("rejects what cannot be written", e.err = "ValueError") ELSE
  If(e.op \o ": no error", e.err = "")
  \cup (IF e.err # "" THEN {} ELSE
    CASE e.op = "open" ->
         JudgeGrid(f0, e, e.out)
         \cup If("values read", ReadOK(f0, e.band, e.nan, e.xl, e.yl, e.d, e.out.v))
         \cup If("data type read", e.out.t = TypeRead(f0, e.band, e.nan))
         \cup If("date and time kept", e.out.date = 1)
      [] e.op = "grid" -> JudgeGrid(f0, e, e.out)
      [] e.op = "write" -> If("source not changed by writing", e.kept = 1)
      [] e.op = "image" -> If("image read back", e.out = f0.v /\ e.t = f0.t)
      [] e.op = "same" -> If(e.what \o " reads back", e.out = e.in)
      [] e.op = "text" -> If("text is the same data", e.out = e.in) \cup (IF e.flat = 1 THEN If("arrays are flat", Flat1(e.toks)) ELSE {})
      [] e.op = "nodata" -> {}
      [] OTHER -> {"unknown"})
Post(e, f0) == IF e.op = "write" /\ e.err = "" THEN Written(e.src, e.nan)
  ELSE IF e.op = "nodata" THEN [f0 EXCEPT !.nodata[e.band] = e.nan] ELSE f0
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {} /\ f = [t |-> "none"]
TraceNext == LET e == H[h].ev[l + 1] IN
  l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(e, f) /\ f' = Post(e, f)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, f, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
