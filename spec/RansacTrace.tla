---------------------------- MODULE RansacTrace -----------------------------
EXTENDS Ransac, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Set(s) == {s[i] : i \in DOMAIN s}
\* e.samples, e.found (points of the result), e.p: fits of n points made by the code, indices and model returned
Judge(e) ==
  CASE e.op = "mean" ->
       IF e.n >= Len(e.x) THEN If("refused", e.err = "ValueError")
       ELSE LET seen == {Set(e.samples[i]) : i \in DOMAIN e.samples} c == Candidates(e.x, e.g, seen, e.most, e.least) IN
         If("samples: distinct points", \A i \in DOMAIN e.samples : Len(e.samples[i]) = e.n /\ Cardinality(Set(e.samples[i])) = e.n /\ Set(e.samples[i]) \subseteq DOMAIN e.x)
         \cup If("samples: none repeated", Cardinality(seen) = Len(e.samples))
         \cup If("samples: number", Len(e.samples) = Number(e.x, e.n, e.iterations))
         \cup If("arguments of fits", e.passed = 1)
         \cup If("data unchanged", e.same = 1)
         \cup (IF c = {} THEN If("no valid sample", e.err = "ValueError")
               ELSE IF e.err # "" THEN {"error although there is a valid sample"}
               ELSE If("best model", \E b \in Best(c) : b.p = e.p)
                    \cup If("inliers", Set(e.found) = Inliers(e.x, e.p, e.most) /\ Len(e.found) = Cardinality(Set(e.found))))
    \* Every sample can be drawn: seen in many calls
    [] e.op = "many" -> If("every sample can be drawn", {Set(e.samples[i]) : i \in DOMAIN e.samples} = Samples(e.x, e.n))
    \* Models with planted inliers, which are all there are
    [] e.op = "planted" -> If("planted: error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("planted: inliers", e.found = e.inliers) \cup If("planted: model", e.p = e.true) \cup If("planted: unchanged", e.same = 1))
    \* Model that fits nothing that others agree with
    [] e.op = "hopeless" -> If("hopeless: refused", e.err = "ValueError")
    [] OTHER -> {"unknown"}
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
