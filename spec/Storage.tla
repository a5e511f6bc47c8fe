------------------------------ MODULE Storage -------------------------------
(* What is written to file is what is read back (C10). Values are exact      *)
(* (written as fractions); a raster r has data type t, values v (bands of     *)
(* rows), size n, limits xl and yl, and coordinate system crs (0 if none).    *)
EXTENDS Grid
Nan == "nan"
None == "none"
Floats == {"float32", "float64"}
MapV(v, F(_)) == [b \in DOMAIN v |-> [r \in DOMAIN v[b] |-> [c \in DOMAIN v[b][r] |-> F(v[b][r][c])]]]
(* The file written: missing values are stored as the stated nodata value *)
Written(r, nan) ==
  LET F(x) == IF nan # None /\ r.t \in Floats /\ x = Nan THEN nan ELSE x
  IN [t |-> r.t, v |-> MapV(r.v, F), n |-> r.n, xl |-> r.xl, yl |-> r.yl, crs |-> r.crs, nodata |-> [b \in DOMAIN r.v |-> nan]]
(* The value that is read as missing *)
Missing(f, band, nan) == IF nan # None THEN nan ELSE IF f.t \in Floats THEN f.nodata[band] ELSE None
Read(f, band, nan, x) == IF Missing(f, band, nan) # None /\ x = Missing(f, band, nan) THEN Nan ELSE x
TypeRead(f, band, nan) == IF Missing(f, band, nan) # None /\ f.t \notin Floats THEN "float64" ELSE f.t
(* The part that is read: the cells that overlap the limits (if any) *)
Window(f, k, l) == IF l = <<>> THEN <<0, f.n[k] - 1>> ELSE Crop(f, k, l)
Span(w) == w[2] - w[1] + 1
PartSize(f, k, l, d) ==
  IF d = 0 THEN Span(Window(f, k, l)) ELSE CeilDiv(Span(Window(f, k, l)) * Abs(D(f, k)), d)
PartLimits(f, k, l) == <<Edge(f, k, Window(f, k, l)[1]), Edge(f, k, Window(f, k, l)[2] + 1)>>
(* Source cells that overlap cell i (from 0) of m cells over window w *)
Sources(w, m, i) == {j \in 0..Span(w) - 1 : j * m < (i + 1) * Span(w) /\ i * Span(w) < (j + 1) * m}
ReadOK(f, band, nan, xl, yl, d, v) ==
  LET wx == Window(f, 1, xl) wy == Window(f, 2, yl)
      mx == PartSize(f, 1, xl, d) my == PartSize(f, 2, yl, d)
  IN /\ Len(v) = my
     /\ \A r \in 1..my : Len(v[r]) = mx
     /\ \A r \in 1..my, c \in 1..mx :
          \E j \in Sources(wy, my, r - 1), i \in Sources(wx, mx, c - 1) :
            v[r][c] = Read(f, band, nan, f.v[band][wy[1] + j + 1][wx[1] + i + 1])
(* The raster that is read in full *)
Opened(f, band, nan) ==
  LET F(x) == Read(f, band, nan, x) IN [t |-> TypeRead(f, band, nan), v |-> MapV(<<f.v[band]>>, F), n |-> f.n, xl |-> f.xl, yl |-> f.yl, crs |-> f.crs]
(* Text: "n" starts a new line, "v" is a scalar. An array of scalars is flat *)
(* if it starts no new line.                                                 *)
Flat1(toks) ==
  \A i \in DOMAIN toks : toks[i] = "[" =>
    \A j \in i..Len(toks) :
      (toks[j] = "]" /\ \A k \in i + 1..j - 1 : toks[k] \notin {"[", "{", "]", "}"}) =>
        \A k \in i..j : toks[k] # "n"
=============================================================================
