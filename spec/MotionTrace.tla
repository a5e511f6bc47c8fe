----------------------------- MODULE MotionTrace -----------------------------
EXTENDS Motion, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
\* Standardized statistics (in 1/1000) of 6400 deviations
Centered(m) == \A i \in DOMAIN m : Abs(m[i]) <= 85
Spread(sd, nonzero) == \A i \in DOMAIN sd : IF nonzero[i] = 1 THEN Abs(sd[i] - 1000) <= 75 ELSE sd[i] = 0
Independent(c) == \A i \in DOMAIN c : Abs(c[i]) <= 100
Judge(e) ==
  CASE e.op = "init" ->
       If("init: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
       If("init: number of particles", Len(e.out) = e.n)
       \cup If("init: stated mean, surface and velocity", \A i \in DOMAIN e.out : e.out[i] = Start(e.kind, e.xy, e.v, e.dir, e.s))
       \cup If("init: does not change the model", e.intact = 1))
    [] e.op = "step" ->
       If("step: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
       If("step: every particle moves by the model", Len(e.post) = Len(e.pre)
            /\ \A i \in DOMAIN e.pre : e.post[i] = Step(e.kind, e.pre[i], e.a, e.t, e.s))
       \cup If("step: does not change the model", e.intact = 1))
    [] e.op = "noise" ->
       If("noise: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
       If("noise: centered on the stated means", Centered(e.mean))
       \cup If("noise: of the stated sizes", Spread(e.sd, e.nonzero))
       \cup If("noise: independent", Independent(e.corr))
       \cup If("noise: positions follow velocities", e.consistent = 1))
    [] e.op = "slow" ->
       If("step: speeds up in the direction of motion, at any speed", e.err = "" /\ Len(e.acc) = Len(e.dirs)
          /\ \A i \in DOMAIN e.dirs : e.acc[i] = <<e.ar * e.dirs[i][1], e.ar * e.dirs[i][2]>>)
    [] e.op = "penalty" ->
       If("penalty: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
       If("penalty: none without uncertainty", e.none = (IF e.given = 1 THEN 0 ELSE 1))
       \cup (IF e.given = 0 THEN {} ELSE
         If("penalty: half the squared number of deviations", e.twice = [i \in DOMAIN e.d |-> Penalty(e.d[i], e.sigma[i])]))
       \cup If("penalty: does not change the particles", e.intact = 1))
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
