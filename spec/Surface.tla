------------------------------ MODULE Surface -------------------------------
(* A raster as a value: a matrix of integers (or NAN), and its limits <<left,*)
(* right>>, <<top, bottom>> in 1/16, in either direction (C08).              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
NAN == 2000000001
Abs(x) == IF x < 0 THEN -x ELSE x
NX(s) == s.n[1]
NY(s) == s.n[2]
DX(s) == (s.xl[2] - s.xl[1]) \div NX(s)
DY(s) == (s.yl[2] - s.yl[1]) \div NY(s)
\* Positions are whole numbers
Whole(s) == (s.xl[2] - s.xl[1]) % (2 * NX(s)) = 0 /\ (s.yl[2] - s.yl[1]) % (2 * NY(s)) = 0
CX(s, c) == s.xl[1] + DX(s) * c + DX(s) \div 2
CY(s, r) == s.yl[1] + DY(s) * r + DY(s) \div 2
Xs(s) == [c \in 1..NX(s) |-> CX(s, c - 1)]
Ys(s) == [r \in 1..NY(s) |-> CY(s, r - 1)]
Lower(l) == IF l[1] < l[2] THEN l[1] ELSE l[2]
Upper(l) == IF l[1] < l[2] THEN l[2] ELSE l[1]
Box(s) == <<Lower(s.xl), Lower(s.yl), Upper(s.xl), Upper(s.yl)>>
At(s, r, c) == s.a[r + 1][c + 1]
Plus(v, z) == IF v = NAN THEN NAN ELSE v + z
Vals(s) == {At(s, r, c) : r \in 0..NY(s) - 1, c \in 0..NX(s) - 1}
ZLim(s) == IF Vals(s) \subseteq {NAN} THEN <<NAN, NAN>> ELSE <<Min(Vals(s) \ {NAN}), Max(Vals(s) \ {NAN})>>
Sub(s, rows, cols) == [i \in 1..Len(rows) |-> [j \in 1..Len(cols) |-> At(s, rows[i], cols[j])]]
Seq0(lo, hi) == [i \in 1..hi - lo + 1 |-> lo + i - 1]

(* ---- Edits ---- *)
SetX(s, l) == [s EXCEPT !.xl = l]
SetY(s, l) == [s EXCEPT !.yl = l]
SetA(s, a) == [s EXCEPT !.a = a, !.n = <<Len(a[1]), Len(a)>>]
Shift(s, dx, dy, dz) ==
  [s EXCEPT !.xl = <<@[1] + dx, @[2] + dx>>, !.yl = <<@[1] + dy, @[2] + dy>>,
            !.a = [r \in DOMAIN @ |-> [c \in DOMAIN @[r] |-> Plus(@[r][c], dz)]]]
\* Cells (0-based) of an axis overlapping an interval
Overlapping(l, n, lo, hi) ==
  LET d == (l[2] - l[1]) \div n IN
  {c \in 0..n - 1 : Upper(<<l[1] + c * d, l[1] + (c + 1) * d>>) > lo /\ Lower(<<l[1] + c * d, l[1] + (c + 1) * d>>) < hi}
CropOK(s, x, y) == Overlapping(s.xl, NX(s), Lower(x), Upper(x)) # {} /\ Overlapping(s.yl, NY(s), Lower(y), Upper(y)) # {}
Crop(s, x, y) ==
  LET cs == Overlapping(s.xl, NX(s), Lower(x), Upper(x))
      rs == Overlapping(s.yl, NY(s), Lower(y), Upper(y))
      c0 == Min(cs)
      c1 == Max(cs)
      r0 == Min(rs)
      r1 == Max(rs)
  IN [s EXCEPT !.a = Sub(s, Seq0(r0, r1), Seq0(c0, c1)), !.n = <<c1 - c0 + 1, r1 - r0 + 1>>,
               !.xl = <<@[1] + c0 * DX(s), @[1] + (c1 + 1) * DX(s)>>, !.yl = <<@[1] + r0 * DY(s), @[1] + (r1 + 1) * DY(s)>>]
CropZ(s, z) ==
  [s EXCEPT !.a = [r \in DOMAIN @ |-> [c \in DOMAIN @[r] |->
     IF @[r][c] = NAN \/ @[r][c] < Lower(z) \/ @[r][c] > Upper(z) THEN NAN ELSE @[r][c]]]]
\* Rows and columns (0-based, in order), with the step between them
Take(s, rows, rstep, cols, cstep) ==
  [s EXCEPT !.a = Sub(s, rows, cols), !.n = <<Len(cols), Len(rows)>>,
            !.xl = <<CX(s, cols[1]) - (cstep * DX(s)) \div 2, CX(s, cols[Len(cols)]) + (cstep * DX(s)) \div 2>>,
            !.yl = <<CY(s, rows[1]) - (rstep * DY(s)) \div 2, CY(s, rows[Len(rows)]) + (rstep * DY(s)) \div 2>>]
DataRows(s) == {r \in 0..NY(s) - 1 : \E c \in 0..NX(s) - 1 : At(s, r, c) # NAN}
DataCols(s) == {c \in 0..NX(s) - 1 : \E r \in 0..NY(s) - 1 : At(s, r, c) # NAN}
CropToData(s) == Take(s, Seq0(Min(DataRows(s)), Max(DataRows(s))), 1, Seq0(Min(DataCols(s)), Max(DataCols(s))), 1)
\* Cells that a filled circle must and may include: to within half a cell if centered on a cell
\* with a whole number of cells as radius, else (rounded to these) to within one
Dist2(s, r, c, p) == LET a == CX(s, c) - p[1] b == CY(s, r) - p[2] IN a * a + b * b
Exactly(s, p, rad) == rad % Abs(DX(s)) = 0 /\ \E r \in -20..20, c \in -20..20 : p = <<CX(s, c), CY(s, r)>>
Cells(s) == (0..NY(s) - 1) \X (0..NX(s) - 1)
Inner(s, p, rad) ==
  LET i == IF Exactly(s, p, rad) THEN rad ELSE rad - Abs(DX(s))
  IN {x \in Cells(s) : i >= 0 /\ Dist2(s, x[1], x[2], p) <= i * i}
Outer(s, p, rad) ==
  LET o == IF Exactly(s, p, rad) THEN rad + Abs(DX(s)) \div 2 ELSE rad + Abs(DX(s))
  IN {x \in Cells(s) : Dist2(s, x[1], x[2], p) <= o * o}
FillOK(s, p, rad, v, a) ==
  /\ Len(a) = NY(s)
  /\ \A r \in 0..NY(s) - 1 : Len(a[r + 1]) = NX(s)
  /\ \A x \in (0..NY(s) - 1) \X (0..NX(s) - 1) :
       LET w == a[x[1] + 1][x[2] + 1] IN
       IF x \in Inner(s, p, rad) THEN w = v ELSE IF x \in Outer(s, p, rad) THEN w \in {v, At(s, x[1], x[2])} ELSE w = At(s, x[1], x[2])
\* Resizing to n = <<nx, ny>> by nearest neighbor keeps limits, and only repeats or drops values
ResizeOK(s, n, a) == Len(a) = n[2] /\ \A r \in DOMAIN a : Len(a[r]) = n[1] /\ \A c \in DOMAIN a[r] : a[r][c] \in Vals(s)

(* ---- Queries ---- *)
\* Linear sample (in 1/256) at position p (1/16), linearly extrapolated beyond the outer centers
Floor(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
Clamp(i, n) == IF n = 1 THEN 0 ELSE IF i < 0 THEN 0 ELSE IF i > n - 2 THEN n - 2 ELSE i
\* In 1/16 cells from the first center
Pos(l, n, p) == LET d == (l[2] - l[1]) \div n IN (16 * (p - l[1]) - 8 * d) \div d
PosWhole(l, n, p) == LET d == (l[2] - l[1]) \div n IN IF d < 0 THEN (16 * (l[1] - p) + 8 * d) % (-d) = 0 ELSE (16 * (p - l[1]) - 8 * d) % d = 0
FloorPos(l, n, p) == LET d == (l[2] - l[1]) \div n IN IF d < 0 THEN (16 * (l[1] - p) + 8 * d) \div (-d) ELSE (16 * (p - l[1]) - 8 * d) \div d
InBox(s, p) == LET b == Box(s) IN p[1] >= b[1] /\ p[1] <= b[3] /\ p[2] >= b[2] /\ p[2] <= b[4]
Linear(s, p) ==
  LET u == FloorPos(s.xl, NX(s), p[1])
      v == FloorPos(s.yl, NY(s), p[2])
      i == Clamp(u \div 16, NX(s))
      j == Clamp(v \div 16, NY(s))
      a == IF NX(s) = 1 THEN 0 ELSE u - 16 * i
      b == IF NY(s) = 1 THEN 0 ELSE v - 16 * j
      i2 == IF NX(s) = 1 THEN 0 ELSE i + 1
      j2 == IF NY(s) = 1 THEN 0 ELSE j + 1
      z == {At(s, j, i), At(s, j, i2), At(s, j2, i), At(s, j2, i2)}
  IN IF NAN \in z THEN NAN
     ELSE (16 - a) * (16 - b) * At(s, j, i) + a * (16 - b) * At(s, j, i2) + (16 - a) * b * At(s, j2, i) + a * b * At(s, j2, i2)
\* Cell (row, column) whose center is nearest, none if on an edge between cells
NearestAmbiguous(s, p) == \/ (FloorPos(s.xl, NX(s), p[1]) + 8) % 16 = 0 \/ (FloorPos(s.yl, NY(s), p[2]) + 8) % 16 = 0
Nearest(s, p) == At(s, (FloorPos(s.yl, NY(s), p[2]) + 8) \div 16, (FloorPos(s.xl, NX(s), p[1]) + 8) \div 16)
\* Gradients times twice the cell size
Diff(x, y) == IF x = NAN \/ y = NAN THEN NAN ELSE y - x
Twice(x) == IF x = NAN THEN NAN ELSE 2 * x
GradX(s, r, c) == IF c = 0 THEN Twice(Diff(At(s, r, 0), At(s, r, 1)))
                  ELSE IF c = NX(s) - 1 THEN Twice(Diff(At(s, r, c - 1), At(s, r, c)))
                  ELSE Diff(At(s, r, c - 1), At(s, r, c + 1))
GradY(s, r, c) == IF r = 0 THEN Twice(Diff(At(s, 0, c), At(s, 1, c)))
                  ELSE IF r = NY(s) - 1 THEN Twice(Diff(At(s, r - 1, c), At(s, r, c)))
                  ELSE Diff(At(s, r - 1, c), At(s, r + 1, c))
Grid2(s, f(_, _)) == [r \in 1..NY(s) |-> [c \in 1..NX(s) |-> f(r - 1, c - 1)]]
=============================================================================
