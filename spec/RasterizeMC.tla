----------------------------- MODULE RasterizeMC -----------------------------
(* Points added to an image of two by one cells one by one, in any order.    *)
EXTENDS Rasterize, Json, TLC
CONSTANTS N
VARIABLES pts, left, sum, num
vars == <<pts, left, sum, num>>
Size == <<2, 1>>
Us == {-1, 0, 3, 4, 8, 9}
Vs == {0, 4, 5}
Cells == {<<1, 1>>, <<1, 2>>}
Init == /\ pts \in [1..N -> [uv : {<<u, v>> : u \in Us, v \in Vs}, val : {0, 1, 7}]]
        /\ left = 1..N /\ sum = [c \in Cells |-> 0] /\ num = [c \in Cells |-> 0]
Next == \E i \in left : LET c == CellOf(pts[i].uv, Size) IN
  /\ left' = left \ {i} /\ pts' = pts
  /\ IF Inside(c) THEN sum' = [sum EXCEPT ![c] = @ + pts[i].val] /\ num' = [num EXCEPT ![c] = @ + 1] ELSE UNCHANGED <<sum, num>>
Spec == Init /\ [][Next]_vars
At == [i \in 1..N |-> CellOf(pts[i].uv, Size)]
Means == left = {} => \A c \in Cells :
  (IF num[c] = 0 THEN NAN ELSE (840 * sum[c]) \div num[c]) = MeanOf(At, [i \in 1..N |-> pts[i].val], c)
\* Means are between the values, and every point in the frame has one cell
Between == \A c \in Cells : LET m == MeanOf(At, [i \in 1..N |-> pts[i].val], c) IN
  m # NAN => (\E i \in Members(At, c) : 840 * pts[i].val <= m) /\ (\E i \in Members(At, c) : 840 * pts[i].val >= m)
Kept == left = {} => num[<<1, 1>>] + num[<<1, 2>>]
  = Cardinality({i \in 1..N : pts[i].uv[1] \in 0..8 /\ pts[i].uv[2] \in 0..4})
Emit == left = {} => PrintT(ToJson(pts))
=============================================================================
