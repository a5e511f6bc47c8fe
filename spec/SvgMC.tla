------------------------------- MODULE SvgMC --------------------------------
(* Every path of a few commands: how it is spelled does not matter.           *)
EXTENDS Svg, Json, TLC
CONSTANTS N
VARIABLES cmds
V == {1, -2}
\* Commands with one or two parts each
One == {<<c, <<a, b>>>> : c \in {"L", "l"}, a \in V, b \in V} \cup {<<c, <<a>>>> : c \in {"H", "h", "V", "v"}, a \in V}
       \cup {<<c, <<1, -2, -2, 1>>>> : c \in {"l", "T", "M", "m", "Q", "s"}} \cup {<<c, <<>>>> : c \in {"Z", "z"}}
       \cup {<<c, <<a, 1>>>> : c \in {"M", "m"}, a \in V}
       \cup {<<c, <<5, 5, 0, 0, 1, 1, -2>>>> : c \in {"A", "a"}} \cup {<<"c", <<9, 9, 9, 9, 1, 1>>>>, <<"C", <<9, 9, 9, 9, 1, 1, 8, 8, 8, 8, -2, -2>>>>}
\* As absolute lines and moves, one part each: [xy, start, out]
Abs(c) == c \in {"M", "L", "H", "V", "C", "S", "Q", "T", "A"}
Move(c) == c \in {"M", "m"}
RECURSIVE Plain(_, _, _, _, _)
Plain(n, k, p, start, out) ==
  IF n > Len(cmds) THEN out
  ELSE LET c == cmds[n][1] args == cmds[n][2] IN
    IF c \in {"Z", "z"} THEN Plain(n + 1, 1, start, start, Append(out, <<"L", start>>))
    ELSE IF k * Arity(c) > Len(args) THEN Plain(n + 1, 1, p, start, out)
    ELSE LET t == To(c, args, k, p, out = <<>>) moved == Move(c) /\ k = 1 IN
         Plain(n, k + 1, t, IF moved THEN t ELSE start, Append(out, <<IF moved THEN "M" ELSE "L", t>>))
Init == cmds \in {<< <<c, <<a, b>>>> >> : c \in {"M", "m"}, a \in {1}, b \in V}
Next == Len(cmds) < N /\ \E c \in One : cmds' = Append(cmds, c)
Spec == Init /\ [][Next]_cmds
Xy == Draw(cmds, 1, <<>>, 1)
Absolute == LET p == Plain(1, 1, <<0, 0>>, <<0, 0>>, <<>>) IN [i \in DOMAIN p |-> p[i][2]]
Spelling == Xy = Absolute
\* A closed subpath ends where it began; every part adds one vertex
RECURSIVE Parts0(_)
Parts0(n) == IF n = 0 THEN 0 ELSE Parts0(n - 1) + (IF Arity(cmds[n][1]) = 0 THEN 1 ELSE Len(cmds[n][2]) \div Arity(cmds[n][1]))
Counted == Len(Xy) = Parts0(Len(cmds))
Closed == Last(cmds)[1] \in {"Z", "z"} => \E i \in 1..(Len(Xy) - 1) : Xy[i] = Last(Xy)
Emit == Len(cmds) = N => PrintT(ToJson(cmds))
=============================================================================
