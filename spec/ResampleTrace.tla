---------------------------- MODULE ResampleTrace ----------------------------
EXTENDS Resample, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Judge(e) ==
  CASE e.op = "draw" ->
       If("draw: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
       Failures(e.method, e.w, e.src)
       \cup If("draw: particle paired with its own weight", e.paired = 1)
       \cup If("draw: earlier particles are not modified", e.intact = 1))
    [] e.op = "many" ->
       If("many: number of copies proportional to weight", e.err = "" /\ Unbiased(e.method, e.w, e.reps, e.total))
    [] e.op = "moments" ->
       LET D == 1..6 IN
       If("moments: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
       If("moments: weighted mean", e.mean = [d \in D |-> MeanW(e.p, e.w, d)])
       \cup If("moments: weighted variance", e.var = [d \in D |-> CovW2(e.p, e.w, d, d)])
       \cup If("moments: weighted covariance", e.cov = [a \in D |-> [b \in D |-> CovW2(e.p, e.w, a, b)]])
       \cup If("moments: do not modify particles", e.intact = 1))
    [] e.op = "start" -> If("start: equal weights", e.err = "" /\ Len(e.w) = e.n /\ \A i \in DOMAIN e.w : e.w[i] = e.w[1] /\ e.w[i] > 0)
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
