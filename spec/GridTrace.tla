----------------------------- MODULE GridTrace ------------------------------
EXTENDS Grid, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
B(x) == x = 1
Good(e, g) ==
  CASE e.op = "attr" ->
         /\ e.n = g.n /\ e.shape = <<g.n[2], g.n[1]>> /\ e.xl = g.xl /\ e.yl = g.yl /\ e.d = <<D(g, 1), D(g, 2)>>
         /\ e.x = [i \in 1..g.n[1] |-> Center(g, 1, i - 1)] /\ e.y = [i \in 1..g.n[2] |-> Center(g, 2, i - 1)]
         /\ e.X = [r \in 1..g.n[2] |-> e.x] /\ e.Y = [r \in 1..g.n[2] |-> [c \in 1..g.n[1] |-> e.y[r]]]
         /\ e.box = <<Lower(g.xl), Lower(g.yl), Upper(g.xl), Upper(g.yl)>>
    [] e.op = "eq" -> B(e.out) = (e.g.n = g.n /\ e.g.xl = g.xl /\ e.g.yl = g.yl)
    [] e.op = "rowcol" -> e.out = [i \in DOMAIN e.p |-> <<Pos(g, 2, e.p[i][2]) - 8, Pos(g, 1, e.p[i][1]) - 8>>]
    [] e.op = "cell" -> e.out = [i \in DOMAIN e.p |-> <<Index(g, 2, e.p[i][2], B(e.inb)), Index(g, 1, e.p[i][1], B(e.inb))>>]
    [] e.op = "center" -> e.out = [i \in DOMAIN e.p |-> <<Center(g, 1, e.p[i][2]), Center(g, 2, e.p[i][1])>>]
    [] e.op = "uv" -> e.out = [i \in DOMAIN e.p |-> <<Pos(g, 1, e.p[i][1]), Pos(g, 2, e.p[i][2])>>]
    [] e.op = "xyz" -> e.nan = 1 /\ e.out = [i \in DOMAIN e.p |-> <<Coord(g, 1, e.p[i][1]), Coord(g, 2, e.p[i][2])>>]
    [] e.op = "flat" -> e.out = [i \in DOMAIN e.p |-> Flat(g, e.p[i])]
    [] e.op = "unflat" -> e.out = [i \in DOMAIN e.p |-> <<e.p[i] \div g.n[1], e.p[i] % g.n[1]>>]
    [] e.op = "inxy" -> e.out = [i \in DOMAIN e.p |-> IF InBox(g, e.p[i]) THEN 1 ELSE 0]
    [] e.op = "ingrid" -> /\ e.outx = [i \in DOMAIN e.x |-> IF InLim(g, 1, e.x[i]) THEN 1 ELSE 0]
                          /\ e.outy = [i \in DOMAIN e.y |-> IF InLim(g, 2, e.y[i]) THEN 1 ELSE 0]
    \* Image coordinates, in 1/16
    [] e.op = "inuv" -> e.out = [i \in DOMAIN e.p |-> IF \A k \in 1..2 : 0 <= e.p[i][k] /\ e.p[i][k] <= 16 * g.n[k] THEN 1 ELSE 0]
    [] e.op = "snap" -> e.out = [i \in DOMAIN e.p |-> [k \in 1..2 |-> Snap(g, k, e.p[i][k], B(e.centers), B(e.edges), B(e.inb))]]
    [] e.op = "box" -> e.out = [j \in 1..4 |->
         LET k == IF j % 2 = 1 THEN 1 ELSE 2
             c == IF j < 3 THEN e.p[k] - e.half[k] ELSE e.p[k] + e.half[k]
         IN Snap(g, k, c, B(e.centers), B(e.edges), B(e.inb))]
    [] e.op = "crop" -> LET c == Crop(g, 1, e.x) r == Crop(g, 2, e.y) IN
         /\ e.rows = r /\ e.cols = c
         /\ e.xl = <<Edge(g, 1, c[1]), Edge(g, 1, c[2] + 1)>> /\ e.yl = <<Edge(g, 2, r[1]), Edge(g, 2, r[2] + 1)>>
    [] e.op = "tiles" ->
         \E nx \in Counts(g.n[1], e.size[1]), ny \in Counts(g.n[2], e.size[2]) :
           LET tx == Tiles(g.n[1], TileLength(g.n[1], nx), e.overlap[1])
               ty == Tiles(g.n[2], TileLength(g.n[2], ny), e.overlap[2])
           IN e.out = [i \in 1..Len(tx) * Len(ty) |-> ty[((i - 1) \div Len(tx)) + 1] \o tx[((i - 1) % Len(tx)) + 1]]
    [] OTHER -> FALSE
Fails(e, g) ==
  CASE e.op = "box" -> \E s \in {-1, 1} : ~InBox(g, <<e.p[1] + s * e.half[1], e.p[2] + s * e.half[2]>>)
    [] e.op = "crop" -> Overlapping(g, 1, e.x) = {} \/ Overlapping(g, 2, e.y) = {}
    [] e.op = "snap" -> ~B(e.centers) /\ ~B(e.edges)
    [] e.op = "build" -> TRUE
    [] OTHER -> FALSE
Judge(e, g) ==
  If(e.op \o ": rejected exactly where stated", (e.err # "") = Fails(e, g))
  \cup (IF e.err # "" \/ Fails(e, g) THEN {} ELSE If(e.op \o ": as the grid states", Good(e, g)))
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1], H[h].g)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
