------------------------------ MODULE FiltersMC ------------------------------
(* Cells excluded one after another, and values added one after another.        *)
EXTENDS Filters, Json, TLC
CONSTANT Depth
VARIABLES a, m, s, t
R == <<1, 1>>
Grids == [1..2 -> [1..3 -> 0..1]]
Init == \/ a \in Grids /\ m = [y \in 1..2 |-> [x \in 1..3 |-> 1]] /\ s = <<>> /\ t = <<>>
        \/ a = <<>> /\ m = <<>> /\ \E v, w \in 0..2 : s = <<v>> /\ t = <<w>>
Exclude == a # <<>> /\ \E y \in 1..2, x \in 1..3 : m[y][x] = 1 /\ m' = [m EXCEPT ![y][x] = 0] /\ UNCHANGED <<a, s, t>>
Add == a = <<>> /\ UNCHANGED <<a, m>> /\ \E v \in 0..2 : (Len(s) < Depth /\ s' = Append(s, v) /\ t' = t) \/ (Len(t) < Depth /\ t' = Append(t, v) /\ s' = s)
Next == Exclude \/ Add
Spec == Init /\ [][Next]_<<a, m, s, t>>
Cells == (1..2) \X (1..3)
Leq(p, q) == p[1] * q[2] <= q[1] * p[2]
\* Values are of included cells near by, and larger than none of them
Largest == a = <<>> \/ \A c \in Cells : LET y == c[1] x == c[2] S == Included(a, m, y, x, R) IN S # {} =>
  /\ MaxCell(a, m, y, x, R, 1) \in S /\ (m[y][x] = 1 => MaxCell(a, m, y, x, R, 0) >= a[y][x] /\ MaxCell(a, m, y, x, R, 0) = MaxCell(a, m, y, x, R, 1))
\* Means are within the range of the included cells, and are these if they are equal
Within == a = <<>> \/ \A c \in Cells : LET y == c[1] x == c[2] S == Included(a, m, y, x, R) g == Gauss(a, m, y, x, R, 1) IN
  IF S = {} THEN g[2] = 0 ELSE g[2] > 0 /\ Leq(<<MinOf(S), 1>>, g) /\ Leq(g, <<MaxOf(S), 1>>)
\* Cells that are excluded are kept, or filled
Kept == a = <<>> \/ \A c \in Cells : m[c[1]][c[2]] = 0 => MaxCell(a, m, c[1], c[2], R, 0) = a[c[1]][c[2]] /\ Gauss(a, m, c[1], c[2], R, 0) = <<a[c[1]][c[2]], 1>>
\* Excluding a cell never raises the maximum of those that are still included, and nothing depends on its value
Fewer == [][a # <<>> => \A c \in Cells : m'[c[1]][c[2]] = 1 => MaxCell(a, m', c[1], c[2], R, 0) <= MaxCell(a, m, c[1], c[2], R, 0)]_<<a, m, s, t>>
Blind == a = <<>> \/ \A d \in Cells : m[d[1]][d[2]] = 0 => LET b == [a EXCEPT ![d[1]][d[2]] = 1 - @] IN \A c \in Cells : m[c[1]][c[2]] = 1 =>
  MaxCell(a, m, c[1], c[2], R, 0) = MaxCell(b, m, c[1], c[2], R, 0) /\ Gauss(a, m, c[1], c[2], R, 0) = Gauss(b, m, c[1], c[2], R, 0)
\* Matching keeps order and range, maps largest to largest, and is the identity for the values themselves
Order == s = <<>> \/ LET g(v) == Match(s, t, v) IN
  /\ \A i, j \in DOMAIN s : s[i] <= s[j] => Leq(g(s[i]), g(s[j]))
  /\ \A i \in DOMAIN s : Leq(<<Values(t)[1], 1>>, g(s[i])) /\ Leq(g(s[i]), <<MaxOf({t[k] : k \in DOMAIN t}), 1>>)
  /\ LET top == g(MaxOf({s[k] : k \in DOMAIN s})) IN top[1] = MaxOf({t[k] : k \in DOMAIN t}) * top[2]
Identity == s = <<>> \/ \A i \in DOMAIN s : LET p == Match(s, s, s[i]) d == Match(s, t, s[i]) e == Match(s, t \o t, s[i]) IN p[1] = s[i] * p[2] /\ d[1] * e[2] = e[1] * d[2]
Emit == PrintT(ToJson([a |-> a, m |-> m, s |-> s, t |-> t]))
=============================================================================
