------------------------------ MODULE Visibility -----------------------------
(* What is seen of terrain from a viewpoint (C22). T[j][i] is the elevation of *)
(* the cell i from the left and j from below, NAN if missing. Positions are in *)
(* quarters of a cell from the lower left corner, elevations in cells.         *)
EXTENDS Geometry, Angles
Nx(T) == Len(T[1])
Ny(T) == Len(T)
Cells(T) == (1..Nx(T)) \X (1..Ny(T))
Height(T, c) == T[c[2]][c[1]]
Center(c) == <<4 * c[1] - 2, 4 * c[2] - 2>>
Off(o, c) == Minus(Center(c), o)
Far(o, c) == LET d == Off(o, c) IN d[1] * d[1] + d[2] * d[2]
\* Distance in cells, rounded
RECURSIVE RingOf(_, _)
RingOf(n, r) == IF (4 * r + 2) * (4 * r + 2) > n THEN r ELSE RingOf(n, r + 1)
Ring(o, c) == RingOf(Far(o, c), 0)
\* Counterclockwise from the x axis, in 1e-5 radians
Turn == 628319
Heading(d) == LET a == Atan[Abs(d[2]) + 1][Abs(d[1]) + 1] IN
  IF d[1] >= 0 /\ d[2] >= 0 THEN a ELSE IF d[1] < 0 /\ d[2] >= 0 THEN Turn \div 2 - a ELSE IF d[1] < 0 THEN Turn \div 2 + a ELSE Turn - a
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Root(n) == IF n = 0 THEN 0 ELSE Newton(n, IF n < 2000 THEN n ELSE 46340)
\* Elevation (in 1e-4) relative to distance; 32 times the effective radius of curvature in cells (0: none)
Slope(o, z, T, c, radius) ==
  LET n == Far(o, c) dz == Height(T, c) - z
      num == IF radius = 0 THEN dz ELSE radius * dz - n
      den == IF radius = 0 THEN 1 ELSE radius IN
  (((num * 40000) \div den) * 600) \div Root(n * 360000)
(* ---- Ring by ring: the highest slope so far, at the headings of the last ring ---- *)
Unknown(v) == v = NAN
\* Slopes (a set, as a neighbor that is unknown may or may not matter) at heading a, from entries [h, e]
Between(env, a) ==
  LET exact == {p \in env : p.h = a}
      left == {p \in env : p.h < a} right == {p \in env : p.h > a}
      l == IF left # {} THEN CHOOSE p \in left : \A w \in left : w.h <= p.h ELSE CHOOSE p \in env : \A w \in env : w.h <= p.h
      r == IF right # {} THEN CHOOSE p \in right : \A w \in right : w.h >= p.h ELSE CHOOSE p \in env : \A w \in env : w.h >= p.h
      gap == LET g == r.h - l.h IN IF g <= 0 THEN g + Turn ELSE g
      ahead == LET g == a - l.h IN IF g < 0 THEN g + Turn ELSE g IN
  IF exact # {} THEN LET p == CHOOSE w \in exact : TRUE IN IF ~Unknown(p.e) /\ (Unknown(l.e) \/ Unknown(r.e)) THEN {p.e, NAN} ELSE {p.e}
  ELSE IF Unknown(l.e) \/ Unknown(r.e) THEN {NAN}
  ELSE {l.e + ((r.e - l.e) * ((ahead * 3000) \div gap)) \div 3000}
Tol(k) == 25 + 10 * k
\* Whether slope e may be seen or hidden behind any of the slopes m
MaySee(e, m, k) == ~Unknown(e) /\ \E v \in m : Unknown(v) \/ e > v - Tol(k)
MayHide(e, m, k) == Unknown(e) \/ \E v \in m : ~Unknown(v) /\ e < v + Tol(k)
Known(m) == {v \in m : ~Unknown(v)}
SlopeOf(o, z, T, c, radius) == IF Unknown(Height(T, c)) THEN NAN ELSE Slope(o, z, T, c, radius)
\* Cells that are wrong in seen (a function of cells); what was seen decides where both are possible
RECURSIVE Wrong(_, _, _, _, _, _, _, _)
Wrong(o, z, T, radius, seen, k, env, last) ==
  IF k > last THEN {} ELSE
  LET ring == {c \in Cells(T) : Ring(o, c) = k}
      m == [c \in ring |-> IF env = {} THEN {NAN} ELSE Between(env, Heading(Off(o, c)))]
      e == [c \in ring |-> SlopeOf(o, z, T, c, radius)]
      \* exactly level with everything nearer
      tie(c) == radius = 0 /\ e[c] = 0 /\ env # {} /\ \A p \in env : p.e = 0
      bad == {c \in ring : IF seen[c] THEN tie(c) \/ ~MaySee(e[c], m[c], k) ELSE ~MayHide(e[c], m[c], k)}
      next == {[h |-> Heading(Off(o, c)), e |-> IF seen[c] THEN e[c] ELSE IF Known(m[c]) = {} THEN NAN ELSE SetMax(Known(m[c]))] : c \in ring} IN
  bad \cup Wrong(o, z, T, radius, seen, k + 1, IF ring = {} THEN env ELSE next, last)
Last(o, T) == SetMax({Ring(o, c) : c \in Cells(T)})
WrongCells(o, z, T, radius, seen) ==
  {c \in Cells(T) : Ring(o, c) = 0 /\ seen[c] = Unknown(Height(T, c))} \cup Wrong(o, z, T, radius, seen, 1, {}, Last(o, T))
\* Visibility, hidden where both are possible
RECURSIVE SeenFrom(_, _, _, _, _, _)
SeenFrom(o, z, T, k, env, last) ==
  IF k > last THEN {} ELSE
  LET ring == {c \in Cells(T) : Ring(o, c) = k}
      m == [c \in ring |-> IF env = {} THEN {NAN} ELSE Between(env, Heading(Off(o, c)))]
      e == [c \in ring |-> SlopeOf(o, z, T, c, 0)]
      seen == {c \in ring : ~Unknown(e[c]) /\ \A v \in m[c] : Unknown(v) \/ e[c] > v + 3}
      next == {[h |-> Heading(Off(o, c)), e |-> IF c \in seen THEN e[c] ELSE IF Known(m[c]) = {} THEN NAN ELSE SetMax(Known(m[c]))] : c \in ring} IN
  seen \cup SeenFrom(o, z, T, k + 1, IF ring = {} THEN env ELSE next, last)
Seen(o, z, T) == {c \in Cells(T) : Ring(o, c) = 0 /\ ~Unknown(Height(T, c))} \cup SeenFrom(o, z, T, 1, {}, Last(o, T))
(* ---- Horizon in direction d (integers) ----                                 *)
Extent(T) == <<0, 0, 4 * Nx(T), 4 * Ny(T)>>
\* Cell of a position in 1 / K quarters; <<>> if it is on a border between cells
CellOf(T, p) == IF \E i \in {1, 2} : p[i] % (4 * K) = 0 /\ p[i] # 0 /\ p[i] # K * Extent(T)[i + 2] THEN <<>>
  ELSE [i \in 1..2 |-> Min2(Max2(p[i] \div (4 * K) + 1, 1), Extent(T)[i + 2] \div 4)]
\* Whether there is only one line of cells
Unclear == <<<<0, 0>>>>
Single(a, b) == LET d == <<Abs(b[1] - a[1]), Abs(b[2] - a[2])>> n == Max2(d[1], d[2]) m == Min2(d[1], d[2]) IN
  \A i \in 0..n : (2 * i * m) % (2 * Max2(n, 1)) # n \/ n = 0
Inside(T, o) == \A i \in {1, 2} : 0 <= o[i] /\ o[i] <= Extent(T)[i + 2]
\* Cells that are sighted, in order; <<<<0, 0>>>> if not determined, <<>> if none
Sighted(T, o, d) ==
  LET r == Ray(o, d, Extent(T)) inside == Inside(T, o)
      from == IF inside THEN CellOf(T, Fine(o)) ELSE CellOf(T, At(o, d, r[1]))
      to == CellOf(T, At(o, d, r[2]))
      graze == \E i \in {1, 2} : d[i] = 0 /\ o[i] % 4 = 0 IN
  IF r[2] = NAN THEN <<>>
  ELSE IF graze \/ (r[1] # NAN /\ r[2] - r[1] < 2) \/ r[2] < 2 THEN Unclear
  ELSE IF from = <<>> \/ to = <<>> THEN Unclear
  ELSE IF ~Single(from, to) THEN Unclear
  ELSE LET line == Line(from, to) IN IF inside THEN Tail(line) ELSE line
\* Whether a is at least as high as b above the horizontal: (dz, squared distance), exact
Product(x, y) == LET low == (x % 4096) * y IN <<(x \div 4096) * y + low \div 4096, low % 4096>>
NotLess(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])
AsHigh(a, b) == IF Sign(a[1]) # Sign(b[1]) THEN Sign(a[1]) > Sign(b[1]) ELSE LET x == Product(a[1] * a[1], b[2]) y == Product(b[1] * b[1], a[2]) IN
  IF Sign(a[1]) >= 0 THEN NotLess(x, y) ELSE NotLess(y, x)
Rise(T, o, z, c, radius) == <<IF radius = 0 THEN Height(T, c) - z ELSE radius * (Height(T, c) - z) - Far(o, c), Far(o, c)>>
\* Possible points of the horizon: <<cell>>, or <<>> if there is none
Horizon(T, o, z, d, radius) ==
  LET s == Sighted(T, o, d) known == {i \in DOMAIN s : ~Unknown(Height(T, s[i]))}
      top == {i \in known : \A j \in known : AsHigh(Rise(T, o, z, s[i], radius), Rise(T, o, z, s[j], radius))} IN
  IF s = Unclear THEN {} ELSE IF known = {} THEN {<<>>}
  ELSE {IF \E j \in known : j > i THEN <<s[i]>> ELSE <<>> : i \in top}
=============================================================================
