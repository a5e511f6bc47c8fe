----------------------------- MODULE FiltersTrace -----------------------------
EXTENDS Filters, Json, TLC
H == JsonDeserialize("trace.json")
NAN == 2000000001
S4 == 10000
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
\* Value of a fraction <<numerator, denominator>>, within 1 / 10000
Close(got, f) == IF f[2] = 0 \/ f[1] = NAN THEN got = NAN ELSE Abs(got) < 2000000 /\ Abs(got * f[2] - S4 * f[1]) <= f[2]
Whole(got, a) == Len(got) = Rows(a) /\ \A y \in DOMAIN got : Len(got[y]) = Cols(a)
Smooth(got, a, m, r, fill) == Whole(got, a) /\ \A y \in 1..Rows(a), x \in 1..Cols(a) : Close(got[y][x], Gauss(a, m, y, x, r, fill))
Filter(e) == IF e.op = "max" THEN If("maximum", e.got = Maximum(e.a, e.m, e.r, e.fill))
  ELSE IF e.op = "gauss" THEN If("mean", Smooth(e.got, e.a, e.m, e.r, e.fill))
  ELSE If("crevasses", Smooth(e.got, Maximum(e.a, e.m, e.r, e.fill), e.m, e.rg, e.fill))
Shade(e) == LET C == (1..Rows(e.a)) \X (1..Cols(e.a)) b == [c \in C |-> Light(e.a, c[1], c[2], e.d, e.l, e.ve)] IN
  If("shade: cells", Whole(e.got, e.a)) \cup (IF ~Whole(e.got, e.a) THEN {} ELSE
  If("shade: order", \A c, d \in C : IF Brighter(b[c], b[d]) THEN e.got[c[1]][c[2]] >= e.got[d[1]][d[2]]
      ELSE Brighter(b[d], b[c]) \/ Abs(e.got[c[1]][c[2]] - e.got[d[1]][d[2]]) <= 2)
  \cup If("shade: range", (\E c, d \in C : Brighter(b[c], b[d])) => LET G == {e.got[c[1]][c[2]] : c \in C} IN MinOf(G) = 0 /\ MaxOf(G) = 1000000))
Judge(e) == IF e.op = "list" THEN (IF Uneven(e.x, e.n, e.default) THEN If("list: refused", e.err = "ValueError")
      ELSE If("list", e.err = "" /\ e.got = Formatted(e.x, e.n, e.default) /\ e.same = 1))
  ELSE IF e.err # "" THEN {"no error: " \o e.op} ELSE If("unchanged", e.same = 1) \cup (
  CASE e.op \in {"max", "gauss", "crevasses"} -> Filter(e)
    [] e.op = "gradient" -> If("gradient", e.gx = [y \in 1..Rows(e.a) |-> [x \in 1..Cols(e.a) |-> Dx(e.a, y, x, e.d)]]
         /\ e.gy = [y \in 1..Rows(e.a) |-> [x \in 1..Cols(e.a) |-> Dy(e.a, y, x, e.d)]])
    [] e.op = "shade" -> Shade(e)
    [] e.op = "cdf" -> If("distribution", e.values = Values(e.a) /\ e.counts = Counts(e.a)) \cup If("inverse", e.back = e.a)
    [] e.op = "match" -> If("match", Len(e.got) = Len(e.a) /\ \A i \in DOMAIN e.a : Close(e.got[i], Match(e.a, e.b, e.a[i])))
    \* NB squared deviations relative to the variance
    [] e.op = "normal" -> LET n == Len(e.a) t == Sum(e.a) v == n * Sum([i \in DOMAIN e.a |-> e.a[i] * e.a[i]]) - t * t IN
         If("normal", Len(e.got) = n /\ \A i \in DOMAIN e.a : LET x == n * e.a[i] - t IN Abs(e.got[i]) < 200000 /\ Abs(e.got[i] * v - S4 * Signed(x)) <= v)
    [] e.op = "strip" -> If("name", e.got = Stripped(e.parts, e.k))
    [] OTHER -> {"unknown"})
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
