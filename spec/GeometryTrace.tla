---------------------------- MODULE GeometryTrace ----------------------------
EXTENDS Geometry, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Set(s) == {s[i] : i \in DOMAIN s}
\* Position (in 1 / 1000) as exact part
Is(got, part) == Len(got) = Len(part[1]) /\ \A i \in DOMAIN got : Abs(got[i] * part[2] - part[1][i]) <= part[2]
Falls(x) == Len(x) > 1 /\ x[2] < x[1]
\* e.x: distances as given, or lengths
X(e) == IF e.x = <<>> THEN Lengths(e.v, Len(e.v)) ELSE e.x
Up(e, s) == IF Falls(X(e)) THEN Reverse(s) ELSE s
Where(e, num, den) == Part(Up(e, e.v), Up(e, X(e)), num, den, 1000)
Before(e, p) == LET x == X(e) IN IF Falls(x) THEN p[1] > x[1] * p[2] ELSE p[1] < x[1] * p[2]
After(e, p) == LET x == X(e) n == Len(x) IN IF Falls(x) THEN p[1] < x[n] * p[2] ELSE p[1] > x[n] * p[2]
Along(e) ==
  LET out == \E i \in DOMAIN e.xi : Before(e, e.xi[i]) \/ After(e, e.xi[i]) IN
  IF e.error = 1 /\ out THEN If("along: refused beyond the line", e.err = "ValueError")
  ELSE IF e.err # "" THEN {"along: error"}
  ELSE If("along: vertices unchanged", e.same = 1) \cup If("along: number", Len(e.got) = Len(e.xi))
       \cup (IF Len(e.got) # Len(e.xi) THEN {} ELSE
             If("along: positions", \A i \in DOMAIN e.xi :
               IF e.fill # <<>> /\ Before(e, e.xi[i]) THEN \A d \in DOMAIN e.got[i] : e.got[i][d] = 1000 * e.fill[1]
               ELSE IF e.fill # <<>> /\ After(e, e.xi[i]) THEN \A d \in DOMAIN e.got[i] : e.got[i][d] = 1000 * e.fill[2]
               ELSE Is(e.got[i], Where(e, e.xi[i][1], e.xi[i][2]))))
Evenly(e) == LET x == X(e) n == Len(e.got) span == x[Len(x)] - x[1] IN
  IF e.err # "" THEN {"evenly: error"}
  ELSE If("evenly: number", IF e.n > 0 THEN n = e.n ELSE (Abs(span) * e.dx[2]) % e.dx[1] # 0 \/ n = (Abs(span) * e.dx[2]) \div e.dx[1] + 1)
       \cup If("evenly: positions", n < 2 \/ \A i \in 1..n : Is(e.got[i], Where(e, x[1] * (n - 1) + (i - 1) * span, n - 1)))
       \cup If("evenly: start", n # 1 \/ Is(e.got[1], Where(e, x[1], 1)))
Judge(e) ==
  CASE e.op = "rays" -> If("rays: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         LET r == [i \in DOMAIN e.dirs |-> Ray(e.o, e.dirs[i], e.box)] IN
         If("rays: entrances", e.enter = [i \in DOMAIN r |-> r[i][1]]) \cup If("rays: exits", e.exit = [i \in DOMAIN r |-> r[i][2]])
         \cup If("rays: points", \A i \in DOMAIN r : \A j \in {1, 2} : LET p == (IF j = 1 THEN e.from ELSE e.to)[i] IN
                IF r[i][j] = NAN THEN \A d \in DOMAIN p : p[d] = NAN ELSE p = At(e.o, e.dirs[i], r[i][j])))
    [] e.op = "clip" -> If("clip: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("clip: parts", e.got = Clip(e.line, e.box)) \cup If("clip: line unchanged", e.same = 1))
    [] e.op = "inbox" -> If("in box", e.got = [i \in DOMAIN e.points |-> IF InBox(e.points[i], e.box) THEN 1 ELSE 0])
    [] e.op = "line" -> If("line of cells", e.err = "" /\ LineOk(e.got, e.a, e.b))
    [] e.op = "circle" -> If("circle of cells", e.err = "" /\ CircleOk(e.got, e.c, e.r))
    [] e.op = "meet" -> IF Meet(e.boxes) THEN If("common part of boxes", e.err = "" /\ e.got = Common(e.boxes)) ELSE If("boxes that are apart", e.err = "ValueError")
    [] e.op = "bounds" -> If("bounds", e.got = Bounds(e.points))
    [] e.op = "polygon" -> If("polygon of box", Len(e.got) = 5 /\ e.got[1] = e.got[5] /\ Len(e.box) = 4
         /\ Set(e.got) = {e.box[1], e.box[3]} \X {e.box[2], e.box[4]}
         /\ \A i \in 1..4 : (e.got[i][1] = e.got[i + 1][1]) # (e.got[i][2] = e.got[i + 1][2]))
    [] e.op = "grid" -> LET t == [i \in 1..Dim(e.box) |-> LET s == Ticks(Lo(e.box, i), Hi(e.box, i), e.step[i], IF e.snap = <<>> THEN Lo(e.box, i) ELSE e.snap[i]) IN
                                  [n \in DOMAIN s |-> s[n][1]]]
                            nx == Len(t[1]) ny == Len(t[2]) IN
         If("grid: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         CASE e.mode = "vectors" -> If("grid: vectors", e.got = t)
           [] e.mode = "points" -> If("grid: points", Len(e.got) = nx * ny /\ \A i \in 1..(nx * ny) : e.got[i] = <<t[1][((i - 1) % nx) + 1], t[2][((i - 1) \div nx) + 1]>>)
           [] OTHER -> If("grid: arrays", e.got = <<[r \in 1..ny |-> t[1]], [r \in 1..ny |-> [c \in 1..nx |-> t[2][r]]]>>))
    [] e.op = "along" -> Along(e)
    [] e.op = "evenly" -> Evenly(e)
    [] e.op = "nearest" -> If("nearest", e.err = "" /\ Len(e.got) = Len(e.y) /\ \A i \in DOMAIN e.y :
         e.got[i] \in DOMAIN e.x /\ \A j \in DOMAIN e.x : Abs(e.x[e.got[i]] - e.y[i]) <= Abs(e.x[j] - e.y[i]))
    [] e.op = "split" -> If("groups", e.err = "" /\ e.got = Chosen(e.mask, e.circular, e.include))
    [] e.op = "distance" -> If("distances", e.err = "" /\ e.got = [i \in DOMAIN e.a |-> [j \in DOMAIN e.b |-> SquaredTo(e.a[i], e.b[j])]])
    [] e.op = "refused" -> If("refused: " \o e.what, e.err = "ValueError")
    [] OTHER -> {"unknown"}
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
