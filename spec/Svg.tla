-------------------------------- MODULE Svg ---------------------------------
(* Vertices of drawings (C19). Text is a sequence of characters; coordinates  *)
(* are in 1 / U; the factors of transforms in 1 / 8.                          *)
EXTENDS Integers, Sequences, FiniteSets
U == 4096
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Digit(c) == CHOOSE d \in 0..9 : Digits[d + 1] = c
Letters == {"M", "m", "L", "l", "H", "h", "V", "v", "C", "c", "S", "s", "Q", "q", "T", "t", "A", "a", "Z", "z"}
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE ""
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n - 1)
\* Position after the digits from i on, and the number that they are
RECURSIVE After(_, _), Whole(_, _, _, _)
After(s, i) == IF IsDigit(At(s, i)) THEN After(s, i + 1) ELSE i
Whole(s, i, j, acc) == IF i >= j THEN acc ELSE Whole(s, i + 1, j, 10 * acc + Digit(s[i]))
\* Number from i on: sign, digits, fraction, exponent. [v, next]
Scaled(m, e, unit) == IF e >= 0 THEN m * Pow(e) * unit ELSE (m * unit) \div Pow(-e)
Number(s, i, unit) ==
  LET neg == At(s, i) = "-" a == IF At(s, i) \in {"+", "-"} THEN i + 1 ELSE i b == After(s, a)
      frac == At(s, b) = "." c == IF frac THEN After(s, b + 1) ELSE b
      m == Whole(s, IF frac THEN b + 1 ELSE b, c, Whole(s, a, b, 0))
      sg == IF At(s, c + 1) \in {"+", "-"} THEN c + 2 ELSE c + 1
      exp == At(s, c) \in {"e", "E"} /\ IsDigit(At(s, sg)) d == IF exp THEN After(s, sg) ELSE c
      ex == IF exp THEN (IF At(s, c + 1) = "-" THEN -1 ELSE 1) * Whole(s, sg, d, 0) ELSE 0
      v == Scaled(m, ex - (IF frac THEN c - b - 1 ELSE 0), unit) IN
  [v |-> IF neg THEN -v ELSE v, next |-> d]
Starts(c) == IsDigit(c) \/ c \in {"+", "-", "."}
\* All numbers of a text, in order
RECURSIVE Numbers(_, _, _)
Numbers(s, i, unit) == IF i > Len(s) THEN <<>>
  ELSE IF Starts(s[i]) THEN LET n == Number(s, i, unit) IN <<n.v>> \o Numbers(s, n.next, unit) ELSE Numbers(s, i + 1, unit)
Coordinates(s) == LET n == Numbers(s, 1, U) IN [k \in 1..(Len(n) \div 2) |-> <<n[2 * k - 1], n[2 * k]>>]
(* ---- Paths: <<command, numbers>>, in order. Flags of arcs are one digit each ---- *)
Arity(c) == CASE c \in {"M", "m", "L", "l", "T", "t"} -> 2 [] c \in {"H", "h", "V", "v"} -> 1 [] c \in {"C", "c"} -> 6
              [] c \in {"S", "s", "Q", "q"} -> 4 [] c \in {"A", "a"} -> 7 [] OTHER -> 0
RECURSIVE Lex(_, _, _, _)
Lex(s, i, cmd, args) ==
  LET done == IF cmd = "" THEN <<>> ELSE <<<<cmd, args>>>> IN
  IF i > Len(s) THEN done
  ELSE IF s[i] \in Letters THEN done \o Lex(s, i + 1, s[i], <<>>)
  ELSE IF ~Starts(s[i]) THEN Lex(s, i + 1, cmd, args)
  ELSE IF cmd \in {"A", "a"} /\ Len(args) % 7 \in {3, 4} THEN Lex(s, i + 1, cmd, Append(args, Digit(s[i])))
  ELSE LET n == Number(s, i, U) IN Lex(s, n.next, cmd, Append(args, n.v))
\* State of drawing: vertices and the start of the current subpath
Last(q) == q[Len(q)]
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
\* Where the k-th part of a command leads from p (its last two numbers, or one)
To(c, args, k, p, none) ==
  LET n == Arity(c) e == k * n IN
  CASE c \in {"H"} -> <<args[e], p[2]>> [] c \in {"h"} -> <<p[1] + args[e], p[2]>>
    [] c \in {"V"} -> <<p[1], args[e]>> [] c \in {"v"} -> <<p[1], p[2] + args[e]>>
    [] c \in {"m", "l", "t", "c", "s", "q", "a"} /\ ~none -> Plus(p, <<args[e - 1], args[e]>>)
    [] OTHER -> <<args[e - 1], args[e]>>
RECURSIVE Parts(_, _, _, _)
Parts(xy, c, args, k) == IF k * Arity(c) > Len(args) THEN xy
  ELSE Parts(Append(xy, To(c, args, k, IF xy = <<>> THEN <<0, 0>> ELSE Last(xy), xy = <<>>)), c, args, k + 1)
RECURSIVE Draw(_, _, _, _)
Draw(cmds, n, xy, start) ==
  IF n > Len(cmds) THEN xy
  ELSE LET c == cmds[n][1] IN
    IF c \in {"Z", "z"} THEN Draw(cmds, n + 1, Append(xy, xy[start]), start)
    ELSE Draw(cmds, n + 1, Parts(xy, c, cmds[n][2], 1), IF c \in {"M", "m"} THEN Len(xy) + 1 ELSE start)
Path(s) == Draw(Lex(s, 1, "", <<>>), 1, <<>>, 1)
(* ---- Shapes: e.tag, e.s (text), e.n (numbers in U, by attribute) ----       *)
Close(xy) == IF Len(xy) > 1 /\ xy[1] # Last(xy) THEN Append(xy, xy[1]) ELSE xy
Box(x, y, w, h) == <<<<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>>, <<x, y>>>>
Shape(e) ==
  CASE e.tag = "path" -> Path(e.s) [] e.tag = "polyline" -> Coordinates(e.s) [] e.tag = "polygon" -> Close(Coordinates(e.s))
    [] e.tag = "line" -> <<<<e.n[1], e.n[2]>>, <<e.n[3], e.n[4]>>>> [] e.tag = "circle" -> <<<<e.n[1], e.n[2]>>>>
    [] OTHER -> Box(e.n[1], e.n[2], e.n[3], e.n[4])
Shapes == {"path", "polyline", "polygon", "line", "circle", "rect", "image"}
(* ---- Transforms: functions [f, s (arguments as text)] as <<a, b, c, d, e, f>> ---- *)
Matrix(t) ==
  LET n == Numbers(t.s, 1, 8) m == Numbers(t.s, 1, U) IN
  CASE t.f = "translate" -> <<8, 0, 0, 8, m[1], IF Len(m) > 1 THEN m[2] ELSE 0>>
    [] t.f = "scale" -> <<n[1], 0, 0, IF Len(n) > 1 THEN n[2] ELSE n[1], 0, 0>>
    [] OTHER -> <<n[1], n[2], n[3], n[4], m[5], m[6]>>
Apply(m, p) == <<(m[1] * p[1] + m[3] * p[2]) \div 8 + m[5], (m[2] * p[1] + m[4] * p[2]) \div 8 + m[6]>>
Moved(m, xy) == [i \in DOMAIN xy |-> Apply(m, xy[i])]
\* The last function of a list is applied first
RECURSIVE Transformed(_, _), Reversed(_, _)
Transformed(list, xy) == IF list = <<>> THEN xy ELSE Transformed(SubSeq(list, 1, Len(list) - 1), Moved(Matrix(Last(list)), xy))
\* (known finding: the first is)
Reversed(list, xy) == IF list = <<>> THEN xy ELSE Reversed(Tail(list), Moved(Matrix(Head(list)), xy))
(* ---- Trees: [tag, names, s, n, t (transform), ch (children)] ----           *)
Name(e, key) == IF key > 0 /\ e.names[key] # "" THEN e.names[key] ELSE e.tag
Value(xy) == [k |-> "points", xy |-> xy, items |-> <<>>]
Group(items) == [k |-> "group", xy |-> <<>>, items |-> items]
\* Values by name, in order
RECURSIVE Collect(_, _, _)
Collect(ns, vs, n) ==
  IF n > Len(ns) THEN <<>>
  ELSE IF \E k \in 1..(n - 1) : ns[k] = ns[n] THEN Collect(ns, vs, n + 1)
  ELSE LET idx == SelectSeq([k \in DOMAIN ns |-> k], LAMBDA k : ns[k] = ns[n]) IN
       <<<<ns[n], [j \in DOMAIN idx |-> vs[idx[j]]]>>>> \o Collect(ns, vs, n + 1)
RECURSIVE Read(_, _, _)
Read(e, key, outer) ==
  LET list == outer \o e.t IN
  IF e.tag \in Shapes THEN Value(Transformed(list, Shape(e)))
  ELSE IF e.tag \in {"svg", "g"}
  THEN Group(Collect([k \in DOMAIN e.ch |-> Name(e.ch[k], key)], [k \in DOMAIN e.ch |-> Read(e.ch[k], key, list)], 1))
  ELSE Group(<<>>)
\* Images in the order of drawing: [own (without transforms), xy]
RECURSIVE Images(_, _), Joined(_)
Joined(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Joined(Tail(q))
Images(e, outer) ==
  LET list == outer \o e.t IN
  IF e.tag = "image" THEN <<[own |-> Shape(e), xy |-> Transformed(list, Shape(e))]>>
  ELSE IF e.tag \in {"svg", "g"} THEN Joined([k \in DOMAIN e.ch |-> Images(e.ch[k], list)]) ELSE <<>>
Least(S) == CHOOSE v \in S : \A w \in S : v <= w
Most(S) == CHOOSE v \in S : \A w \in S : v >= w
Along(xy, d) == {xy[i][d] : i \in DOMAIN xy}
Origin(xy) == <<Least(Along(xy, 1)), Least(Along(xy, 2))>>
Extent(xy) == <<Most(Along(xy, 1)) - Least(Along(xy, 1)), Most(Along(xy, 2)) - Least(Along(xy, 2))>>
\* Relative to the last image, in its size or that which is asked (in pixels; <<>>: its own)
OnImage(p, o, w, size) == <<((p[1] - o[1]) * (size[1] \div 512)) \div (w[1] \div 512), ((p[2] - o[2]) * (size[2] \div 512)) \div (w[2] \div 512)>>
RECURSIVE Placed(_, _, _, _)
Placed(v, o, w, size) ==
  IF v.k = "points" THEN [v EXCEPT !.xy = [i \in DOMAIN v.xy |-> OnImage(v.xy[i], o, w, size)]]
  ELSE [v EXCEPT !.items = [i \in DOMAIN v.items |-> <<v.items[i][1], [j \in DOMAIN v.items[i][2] |-> Placed(v.items[i][2][j], o, w, size)]>>]]
Result(root, key, size) ==
  LET r == Read(root, key, <<>>) im == Images(root, <<>>) IN
  IF im = <<>> THEN r
  ELSE LET last == Last(im) IN Placed(r, Origin(last.xy), Extent(last.xy), IF size = <<>> THEN Extent(last.own) ELSE <<size[1] * U, size[2] * U>>)
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.k = b.k /\ a.xy = b.xy /\ Len(a.items) = Len(b.items)
  /\ \A i \in DOMAIN a.items : \E j \in DOMAIN b.items :
       /\ a.items[i][1] = b.items[j][1] /\ Len(a.items[i][2]) = Len(b.items[j][2])
       /\ \A n \in DOMAIN a.items[i][2] : Same(a.items[i][2][n], b.items[j][2][n])
(* ---- Points written as elements, and read again ----                       *)
Written(tag, xy) ==
  CASE tag \in {"path", "polyline"} -> xy
    [] tag = "polygon" -> Close(xy)
    [] tag = "line" -> IF xy = <<>> THEN <<<<0, 0>>, <<0, 0>>>> ELSE <<xy[1], Last(xy)>>
    [] tag = "circle" -> IF xy = <<>> THEN <<<<0, 0>>>> ELSE <<xy[1]>>
    [] OTHER -> IF xy = <<>> THEN (IF tag = "svg" THEN <<>> ELSE Box(0, 0, 0, 0)) ELSE LET o == Origin(xy) w == Extent(xy) IN Box(o[1], o[2], w[1], w[2])
=============================================================================
