---------------------------- MODULE VisibilityMC -----------------------------
(* Every small terrain: what is seen changes only as the scene does.          *)
EXTENDS Visibility, Json, TLC
CONSTANTS Heights
VARIABLES T, z, done
W == 3
Row == [1..W -> Heights]
Init == T \in [1..1 -> Row] /\ z \in {1, 2} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ z' = z /\ \E r \in Row : T' = Append(T, r)
Spec == Init /\ [][Next]_<<T, z, done>>
o == <<2, 2>>
V == Seen(o, z, T)
\* Mirrored across the diagonal
Flip == [i \in 1..W |-> [j \in 1..2 |-> T[j][i]]]
Mirrored == done =>  Seen(o, z, Flip) = {<<c[2], c[1]>> : c \in V}
Raised == done =>  Seen(o, z + 1, [j \in 1..2 |-> [i \in 1..W |-> IF T[j][i] = NAN THEN NAN ELSE T[j][i] + 1]]) = V
MissingNotSeen == done =>  \A c \in V : Height(T, c) # NAN
FirstSeen == done =>  \A c \in Cells(T) : Ring(o, c) <= 1 /\ Height(T, c) # NAN => c \in V
\* Along the x axis: seen exactly if above all that is nearer
Slp(c) == Slope(o, z, T, c, 0)
Axis == done => \A i \in 2..W : LET c == <<i, 1>> nearer == {<<j, 1>> : j \in 2..(i - 1)} IN
  (\A a \in nearer \cup {c} : Height(T, a) # NAN) => ((c \in V) = (\A a \in nearer : Slp(c) > Slp(a) + 3))
\* Lowering terrain hides nothing else
Lower(a) == [T EXCEPT ![a[2]][a[1]] = @ - 1]
Monotone == done =>  \A a \in Cells(T) : Height(T, a) # NAN => V \ {a} \subseteq Seen(o, z, Lower(a))
Consistent == done =>  WrongCells(o, z, T, 0, [c \in Cells(T) |-> c \in V]) = {}
Emit == done => PrintT(ToJson([T |-> T, z |-> z]))
=============================================================================
