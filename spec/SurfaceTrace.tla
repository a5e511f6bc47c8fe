---------------------------- MODULE SurfaceTrace ----------------------------
EXTENDS Surface, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, st, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Has(s) == Len(s.a) > 0
\* State after an edit without error (from the observation where the specification leaves a choice)
Post(e, s) ==
  CASE e.op = "setx" -> SetX(s, e.x)
    [] e.op = "sety" -> SetY(s, e.x)
    [] e.op = "seta" -> SetA(s, e.a)
    [] e.op = "shift" -> Shift(s, e.x[1], e.x[2], e.y[1])
    [] e.op = "crop" -> Crop(s, e.x, e.y)
    [] e.op = "cropz" -> CropZ(s, e.x)
    [] e.op = "data" -> CropToData(s)
    [] e.op = "take" -> Take(s, e.rows, e.rstep, e.cols, e.cstep)
    [] e.op = "rows" -> Take(s, e.x, e.y[1], Seq0(0, NX(s) - 1), 1)
    [] e.op = "cols" -> Take(s, Seq0(0, NY(s) - 1), 1, e.x, e.y[1])
    [] e.op = "fill" -> [s EXCEPT !.a = e.a]
    [] e.op = "resize" -> [s EXCEPT !.n = e.n, !.a = IF Has(s) THEN e.a ELSE @]
    [] OTHER -> s
Legal(e, s) ==
  CASE e.op = "fill" -> If("fill: exactly the cells of the circle", FillOK(s, e.x, e.y[1], e.v, e.a))
    [] e.op = "resize" -> If("resize: to the stated fraction", ~Has(s) \/ ResizeOK(s, e.n, e.a))
    [] OTHER -> {}
Fails(e, s) == (e.op = "crop" /\ ~CropOK(s, e.x, e.y)) \/ (e.op = "data" /\ DataRows(s) = {})
See(q, s) ==
  CASE q.k = "n" -> q.v = s.n
    [] q.k = "xlim" -> q.v = s.xl
    [] q.k = "ylim" -> q.v = s.yl
    [] q.k = "x" -> q.v = Xs(s)
    [] q.k = "y" -> q.v = Ys(s)
    [] q.k = "X" -> q.v = [r \in 1..NY(s) |-> Xs(s)]
    [] q.k = "Y" -> q.v = [r \in 1..NY(s) |-> [c \in 1..NX(s) |-> Ys(s)[r]]]
    [] q.k = "d" -> q.v = <<DX(s), DY(s)>>
    [] q.k = "box" -> q.v = Box(s)
    [] q.k = "a" -> q.v = s.a
    [] q.k = "zlim" -> q.v = ZLim(s)
    [] q.k = "linear" -> q.err = "" /\ q.v = [i \in DOMAIN q.p |-> IF InBox(s, q.p[i]) THEN Linear(s, q.p[i]) ELSE q.fill]
    [] q.k = "nearest" -> q.err = "" /\ \A i \in DOMAIN q.p : NearestAmbiguous(s, q.p[i]) \/ q.v[i] = Nearest(s, q.p[i])
    [] q.k = "outside" -> (q.err # "") = (\E i \in DOMAIN q.p : ~InBox(s, q.p[i]))
    [] q.k = "grid" -> q.err = "" /\ q.v = [j \in DOMAIN q.y |-> [i \in DOMAIN q.x |-> Linear(s, <<q.x[i], q.y[j]>>)]]
    [] q.k = "gridf" -> q.err = "" /\ q.v = [j \in DOMAIN q.y |-> [i \in DOMAIN q.x |->
         IF InBox(s, <<q.x[i], q.y[j]>>) THEN Linear(s, <<q.x[i], q.y[j]>>) ELSE q.fill]]
    [] q.k = "resample" -> q.err = "" /\ LET t == [s EXCEPT !.n = q.n, !.xl = q.xl, !.yl = q.yl] IN
         q.v = [j \in 1..NY(t) |-> [i \in 1..NX(t) |-> Linear(s, <<Xs(t)[i], Ys(t)[j]>>)]] /\ q.x = Xs(t) /\ q.y = Ys(t) /\ q.fresh = 1
    [] q.k = "gradx" -> q.v = Grid2(s, LAMBDA r, c : GradX(s, r, c))
    [] q.k = "grady" -> q.v = Grid2(s, LAMBDA r, c : GradY(s, r, c))
    [] q.k = "extent" -> IF DataRows(s) = {} THEN q.err # ""
                         ELSE q.v = <<Min(DataRows(s)), Max(DataRows(s)) + 1, Min(DataCols(s)), Max(DataCols(s)) + 1>>
    [] q.k = "cell" -> q.v = [i \in DOMAIN q.rc |-> <<CX(s, q.rc[i][2]), CY(s, q.rc[i][1])>>]
    [] q.k = "fresh" -> q.v = 1
Judge(e, s, t) ==
  If(e.op \o ": error exactly where stated", (e.err # "") = Fails(e, s))
  \cup (IF e.err # "" THEN {} ELSE Legal(e, s))
  \cup UNION {If(e.see[i].k \o ": answers for the current values and grid", See(e.see[i], t)) : i \in DOMAIN e.see}
\* A copy, grid or subset starts a new object
Born(e, s) == CASE e.op = "copy" -> s [] e.op = "grid" -> [s EXCEPT !.a = <<>>] [] OTHER -> Post(e, s)
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {} /\ st = <<H[h].s0>>
TraceNext ==
  LET e == H[h].ev[l + 1]
      s == st[e.obj]
      ok == e.err = "" /\ ~Fails(e, s)
      t == IF ok THEN Born(e, s) ELSE s
  IN l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h
     /\ bad' = Judge(e, s, t)
     /\ st' = IF e.new = 1 THEN Append(st, t) ELSE [st EXCEPT ![e.obj] = t]
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, st, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
