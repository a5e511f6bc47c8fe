--------------------------- MODULE InterpolationMC --------------------------
(* Every order of two or three coordinates, and every N queries in turn.     *)
EXTENDS Interpolation, Json, TLC
CONSTANTS N
VARIABLES x, ops
vars == <<x, ops>>
Coords == UNION {{f \in [1..k -> 0..3] : \A i, j \in 1..k : i # j => f[i] # f[j]} : k \in 2..3}
Init == x \in Coords /\ ops = <<>>
Next == /\ Len(ops) < N
        /\ \E xi \in -1..4, ex \in {0, 1} : ops' = Append(ops, [xi |-> xi, ex |-> ex])
        /\ x' = x
Spec == Init /\ [][Next]_vars
Op == ops[Len(ops)]
P == Pairs(x, Op.xi, Op.ex)
\* Within the sequence, the two are the neighbours: none lies strictly between them
Neighbours == (ops # <<>> /\ Op.ex = 0 /\ Bounded(x, Op.xi)) =>
  \A p \in P : /\ x[p[1]] <= Op.xi /\ Op.xi <= x[p[2]]
               /\ \A i \in DOMAIN x : ~(x[p[1]] < x[i] /\ x[i] < x[p[2]])
               /\ (p[1] = p[2] <=> \E i \in DOMAIN x : x[i] = Op.xi)
\* There is a result exactly within the sequence, or always if extrapolated
HasResult == ops # <<>> => (P # {} <=> (Op.ex = 1 \/ Bounded(x, Op.xi)))
\* A mixture is between its values, reproduces them at their own coordinates, and is linear
Mixes == (ops # <<>>) => \A p \in P : LET f == Fraction(x, p, Op.xi) m == f[2] * 2 IN
  /\ (Op.ex = 0 => Mix(0, 8, f, m) \in 0..8 * m)
  /\ (Op.xi = x[p[1]] => Mix(3, 8, f, m) = 3 * m)
  /\ ((Op.xi = x[p[2]] /\ p[1] # p[2]) => Mix(3, 8, f, m) = 8 * m)
  /\ Mix(0, 8, f, m) + Mix(8, 0, f, m) = 8 * m
  /\ (p[1] = p[2] => Variance(2, 2, 5, 5, f, Near(x, p, Op.xi), m) = 36 * m * m)
  /\ Variance(2, 1, 5, 7, f, Near(x, p, Op.xi), m) >= Variance(2, 1, 5, 5, f, Near(x, p, Op.xi), m)
Emit == Len(ops) = N => PrintT(ToJson([x |-> x, ops |-> ops]))
=============================================================================
