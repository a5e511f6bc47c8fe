---------------------------- MODULE TrackingTrace ----------------------------
(* Judges recorded tracking calls.                                           *)
EXTENDS Tracking, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, st, bad
vars == <<h, l, st, bad>>
If(name, cond) == IF cond THEN {} ELSE {name}
Empty == [parts |-> <<>>, w |-> <<>>, err |-> "", warns |-> <<>>, dead |-> FALSE]
C(x) == H[x].c

\* Errors that a single track may raise
SingleErrors(c, m) ==
  LET U == Used(c, 1)
      t == c.tracks[1]
  IN IF FirstOf(m, U) = 0 THEN {} ELSE
     (IF t.failstep >= 0 /\ t.failstep <= LastOf(m, U) - FirstOf(m, U)
      THEN {IF t.failkind = "nan" THEN "ValueError" ELSE t.failkind} ELSE {})
     \cup (IF c.vis < 900 THEN {"ValueError"} ELSE {})
     \cup (IF c.badimg # <<>> THEN {"OSError"} ELSE {})
\* Whole call
JudgeCall(c, e) ==
  LET t == Times(c)
      m == Images(c)
      e0 == IF c.units = 1 THEN "ValueError" ELSE t.err
  IN IF e0 # "" THEN If("call: rejected", e.err = e0)
     ELSE IF Len(c.tracks) = 1 /\ e.err # "" THEN If("single track: raises its own error", e.err \in SingleErrors(c, m))
     ELSE If("call: returns", e.err = "") \cup (IF e.err # "" THEN {} ELSE
       If("call: times", e.times = t.out)
       \cup If("call: matched images", e.images = m)
       \cup If("call: outputs as requested", e.shapes = 1)
       \cup If("call: images of caching observers are read first, others are not kept",
            e.haslog = 0 \/ e.cached = [o \in DOMAIN c.obs |->
              IF Len(c.tracks) > 1 /\ c.cache[o] = 1 THEN Sorted({m[i][o] : i \in DOMAIN m} \ {-1}) ELSE <<>>]))

JudgeTime(c, s, e) ==
  LET m == Images(c)
      k == e.k
      i == e.i
      U == Used(c, k)
      first == FirstOf(m, U)
      inside == first > 0 /\ i >= first /\ i <= LastOf(m, U)
      dt == IF i > first THEN Times(c).out[i] - Times(c).out[i - 1] ELSE 0
      pre == IF i = first THEN InitialParticles(c, k) ELSE Evolved(s.parts, dt)
      fail == FailAt(c, m, k, i, pre)
      prior == IF i = first THEN [p \in DOMAIN pre |-> Full] ELSE s.w
      w == IF i = first THEN prior ELSE Weigh(c, m, k, i, pre, prior)
      src == [p \in DOMAIN e.parts |-> e.parts[p][2] + 1]
      tr == SelectSeq(e.reads, LAMBDA r : <<r[5] - r[3], r[6] - r[4]>> = c.tile)
      sr == SelectSeq(e.reads, LAMBDA r : <<r[5] - r[3], r[6] - r[4]>> # c.tile)
      pairs(q) == {<<q[a][1], q[a][2]>> : a \in DOMAIN q}
      templates == {<<o, m[i][o]>> : o \in TemplateAt(c, m, k, i)}
      seen == {<<o, m[i][o]>> : o \in Seen(c, m, k, i)}
      W == Sum(prior)
      centered(r) ==
        LET cu == (r[3] + r[5]) * W - 2 * (W * Project(r[1], r[2], 0, 0)[1] + 2 * MeanW(pre, prior, 1))
            cv == (r[4] + r[6]) * W - 2 * (W * Project(r[1], r[2], 0, 0)[2] + 3 * MeanW(pre, prior, 2))
        IN Abs(cu) <= W /\ Abs(cv) <= W
      contains(r) == \A p \in DOMAIN pre :
        LET uv == Project(r[1], r[2], pre[p][1], pre[p][2]) IN
        \* (windows are up to half a pixel from the particle, as the template from the mean: see Evidence)
        /\ 2 * r[3] <= 2 * uv[1] - c.tile[1] + 1 /\ 2 * r[5] >= 2 * uv[1] + c.tile[1] - 1
        /\ 2 * r[4] <= 2 * uv[2] - c.tile[2] + 1 /\ 2 * r[6] >= 2 * uv[2] + c.tile[2] - 1
      reads == IF e.haslog = 0 THEN {} ELSE
        If("templates are taken at the first match of each observer", pairs(tr) = templates /\ Len(tr) = Cardinality(templates))
        \cup If("templates are centered around the mean of the particles", \A a \in DOMAIN tr : centered(tr[a]))
        \cup If("evidence is of the images matched", pairs(sr) = seen /\ Len(sr) = Cardinality(seen))
        \cup If("evidence is around all particles", \A a \in DOMAIN sr : contains(sr[a]))
      D == 1..6
      drawn == i > first
      known == \A p \in DOMAIN src : src[p] \in DOMAIN pre
      badp == IF e.hasp = 0 THEN {} ELSE
        If("number of particles", Len(e.parts) = Len(pre) /\ Len(e.w) = Len(pre))
        \cup (IF ~known \/ Len(e.parts) # Len(pre) \/ Len(e.w) # Len(pre) THEN {"particles are those evolved"} ELSE
          If("particles are those evolved", \A p \in DOMAIN src : e.parts[p] = pre[src[p]])
          \cup (IF drawn THEN DrawFailures(c.method, w, src) ELSE If("starts from the initial particles", src = [p \in DOMAIN pre |-> p]))
          \cup If("weights are those of the evidence", \A p \in DOMAIN src : e.w[p] = w[src[p]]))
      \* Without recorded particles, all weights are equal and draws systematic
      parts1 == IF e.hasp = 1 THEN e.parts ELSE pre
      w1 == IF e.hasp = 1 THEN e.w ELSE prior
      usable == Len(parts1) = Len(w1) /\ Len(w1) > 0 /\ \A p \in DOMAIN w1 : w1[p] >= 0 /\ w1[p] <= Full
      W1 == Sum(w1)
      moments == IF ~usable \/ W1 = 0 THEN {"weights are valid"} ELSE
        If("mean describes the weighted particles", e.mean = [d \in D |-> MeanW(parts1, w1, d)])
        \cup (IF c.cov = 1 THEN If("covariance describes the weighted particles",
                e.cov = [a \in D |-> [b \in D |-> CovW2(parts1, w1, a, b)]])
              ELSE If("deviation describes the weighted particles", e.var = [d \in D |-> CovW2(parts1, w1, d, d)]))
      warns == s.warns \o WarnAt(c, m, k, i)
  IN IF ~inside \/ s.dead
     THEN [st |-> s, bad |-> If("undefined outside of observed times and after failure", e.est = 0)
             \cup If("nothing is read outside of observed times", e.reads = <<>>)]
     ELSE IF fail # ""
     THEN [st |-> [s EXCEPT !.dead = TRUE, !.err = fail, !.warns = warns],
           bad |-> If("undefined from failure", e.est = 0)]
     ELSE IF e.est = 0 THEN [st |-> [s EXCEPT !.dead = TRUE], bad |-> {"defined at observed times"}]
     ELSE [st |-> [s EXCEPT !.parts = parts1, !.w = w1, !.warns = warns \o OffWarn(c, m, k, i)],
           bad |-> reads \cup badp \cup moments]

Step(c, s, e) ==
  CASE e.op = "call" -> [st |-> Empty, bad |-> JudgeCall(c, e)]
    [] e.op = "begin" -> [st |-> Empty, bad |-> {}]
    [] e.op = "time" -> JudgeTime(c, s, e)
    [] e.op = "end" -> [st |-> Empty, bad |->
         If("error is reported for the track that failed", IF s.err = "Weird" THEN e.err # "" ELSE e.err = s.err)
         \cup If("warnings are reported for the track that warned",
              \* An image that cannot be read may precede the warnings of others in the same step
              IF s.err = "OSError" THEN IsPrefix(s.warns, e.warns) ELSE e.warns = s.warns)]
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {} /\ st = Empty
TraceNext == /\ l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h
             /\ LET r == Step(H[h].c, st, H[h].ev[l + 1]) IN st' = r.st /\ bad' = r.bad
TraceSpec == TraceInit /\ [][TraceNext]_vars
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
