-------------------------- MODULE InterpolationTrace ------------------------
EXTENDS Interpolation, Json, TLC
H == JsonDeserialize("trace.json")
M == 60
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
\* The pair used, if the two are as the code says it chose
Result(e, c, p) ==
  LET a == c.means[p[1]] b == c.means[p[2]]
      lead == IF a.inf = 1 THEN b ELSE a
      d == IF e.d > 0 THEN e.d ELSE Larger(a.d, b.d)
      f == Fraction(c.x, p, e.xi)
      near == Near(c.x, p, e.xi)
      lim(k) == LET g == IF k = 1 THEN e.xl ELSE e.yl
                    box == Common(Common(Extent(a, k), Extent(b, k)), IF g = <<>> THEN <<-INF, INF>> ELSE <<Lo(g), Hi(g)>>)
                IN IF lead.inf = 1 THEN box ELSE SnapOut(box, lead.d, Extent(lead, k)[1])
      o == e.out
      wide == lead.inf = 1
      num(q) == IF wide THEN 1 ELSE (lim(q)[2] - lim(q)[1]) \div d
      pt(r, q) == <<(IF o.xl[1] < o.xl[2] THEN o.xl[1] + d * q - d \div 2 ELSE o.xl[1] - d * q + d \div 2),
                    (IF o.yl[1] < o.yl[2] THEN o.yl[1] + d * r - d \div 2 ELSE o.yl[1] - d * r + d \div 2)>>
      mean(s, r, q) == Plus(Within(ValueAt(s, IF wide THEN <<0, 0>> ELSE pt(r, q)), e.zlim), e.add)
      sig(k, r, q) == IF c.sigmas = <<>> THEN 0 ELSE ValueAt(c.sigmas[k], IF wide THEN <<0, 0>> ELSE pt(r, q))
      size == Len(o.v) = num(2) /\ \A r \in DOMAIN o.v : Len(o.v[r]) = num(1)
      same == Lo(o.xl) = lim(1)[1] /\ Hi(o.xl) = lim(1)[2] /\ Lo(o.yl) = lim(2)[1] /\ Hi(o.yl) = lim(2)[2]
      \* Samples next to missing cells of a single row or column may be missing
      lone == (num(1) = 1 \/ num(2) = 1) /\ \E r \in DOMAIN o.v, q \in 1..num(1) : NAN \in {mean(a, r, q), mean(b, r, q)}
      is(v, w) == v = w \/ (w # NAN /\ Abs(v - w) <= Abs(w) \div 100000) \/ (lone /\ v = NAN)
  IN If("extent of the result", same) \cup If("size of the result", size)
     \cup (IF ~size \/ ~same THEN {} ELSE
       If("mixture of the two rasters", \A r \in DOMAIN o.v, q \in 1..num(1) :
          is(o.v[r][q], Mix(mean(a, r, q), mean(b, r, q), f, M)))
       \cup (IF e.sigma = 0 THEN {} ELSE
         If("extent of the uncertainty", o.sx = o.xl /\ o.sy = o.yl)
         \cup If("uncertainty", Len(o.var) = num(2) /\ \A r \in DOMAIN o.var : Len(o.var[r]) = num(1)
           /\ \A q \in 1..num(1) :
              is(o.var[r][q], Variance(sig(p[1], r, q), sig(p[2], r, q), mean(a, r, q), mean(b, r, q), f, near, M)))))
Overlaps(e, c, p) ==
  \A k \in 1..2 : LET g == IF k = 1 THEN e.xl ELSE e.yl
                     box == Common(Common(Extent(c.means[p[1]], k), Extent(c.means[p[2]], k)), IF g = <<>> THEN <<-INF, INF>> ELSE <<Lo(g), Hi(g)>>)
                 IN box[1] < box[2]
Judge(e, c) ==
  LET ps == IF Len(c.x) < 2 /\ e.ex = 1 THEN {} ELSE Pairs(c.x, e.xi, e.ex) IN
  If("rasters given are not changed", e.kept = 1)
  \cup (CASE e.op = "nearest" ->
         IF ps = {} THEN If("rejects coordinates out of bounds", e.err = "ValueError")
         ELSE If("nearest: no error", e.err = "") \cup If("nearest", e.err # "" \/ e.out \in {<<p[1] - 1, p[2] - 1>> : p \in ps})
       [] e.op = "at" ->
         IF ps = {} THEN If("rejects coordinates out of bounds", e.err = "ValueError")
         ELSE IF \A p \in ps : ~Overlaps(e, c, p) THEN If("rejects rasters that do not overlap", e.err = "ValueError")
         ELSE IF e.err # "" THEN If("no error", \E p \in ps : ~Overlaps(e, c, p))
         ELSE If("date and time of the result", e.date = 1)
              \cup (LET rs == {Result(e, c, p) : p \in {p \in ps : Overlaps(e, c, p)}} IN IF {} \in rs THEN {} ELSE CHOOSE r \in rs : TRUE)
       [] OTHER -> {"unknown"})
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1], H[h].c)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
