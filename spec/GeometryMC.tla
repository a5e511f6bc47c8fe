----------------------------- MODULE GeometryMC ------------------------------
(* Rays, clipped lines and lines of cells on a small grid.                    *)
EXTENDS Geometry, Json, TLC
CONSTANTS Reach
VARIABLES kind, a, b, c
Boxes == {<<1, 1, 3, 2>>, <<0, 1, 2, 3>>}
Grid == (0..3) \X (0..3)
Init == \/ kind = "ray" /\ a \in Grid /\ b \in (((-3)..3) \X ((-3)..3)) \ {<<0, 0>>} /\ c \in Boxes
        \/ kind = "clip" /\ a \in Grid \X Grid /\ b \in Grid /\ c \in {<<1, 1, 3, 2>>}
        \/ kind = "line" /\ a \in {<<0, 0>>, <<2, -1>>} /\ b \in ((-Reach)..Reach) \X ((-Reach)..Reach) /\ c = <<>>
        \/ kind = "split" /\ a \in UNION {[1..n -> BOOLEAN] : n \in 1..5} /\ b \in BOOLEAN /\ c \in {"all", "true", "false"}
Next == UNCHANGED <<kind, a, b, c>>
Spec == Init /\ [][Next]_<<kind, a, b, c>>
Big(box) == Fine(box)
OnSide(p, box) == InBox(p, Big(box)) /\ \E i \in 1..2 : p[i] = K * Lo(box, i) \/ p[i] = K * Hi(box, i)
\* Entrances and exits are on the box; the ray is inside exactly between them
Rays == kind = "ray" => LET r == Ray(a, b, c) start == IF r[1] = NAN THEN 0 ELSE r[1] IN
  /\ \A i \in {1, 2} : r[i] # NAN => r[i] >= 0 /\ OnSide(At(a, b, r[i]), c)
  /\ r[1] # NAN => r[2] # NAN /\ r[1] <= r[2]
  /\ \A t \in {10 * n : n \in 0..30} : InBox(At(a, b, t), Big(c)) = (r[2] # NAN /\ start <= t /\ t <= r[2])
L == <<a[1], a[2], b>>
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o (IF Len(s) = 1 THEN <<>> ELSE s[2])
Clips == kind = "clip" => LET s == Clip(L, c) IN
  \* what is kept is in the box, and all vertices in it are kept in order
  /\ \A n \in DOMAIN s : \A i \in DOMAIN s[n] : InBox(s[n][i], Big(c))
  /\ LET kept == SelectSeq(L, LAMBDA p : InBox(p, c)) f == Flat(s) IN
       /\ \A i \in DOMAIN kept : \E j \in DOMAIN f : f[j] = Fine(kept[i])
       /\ Len(kept) <= Len(f) /\ Len(f) <= Len(kept) + 2 * Len(s) /\ (kept = <<>>) = (s = <<>>)
  \* parts that are cut start and end on its sides
  /\ \A n \in DOMAIN s : LET f == s[n][1] e == s[n][Len(s[n])] IN (f = Fine(L[1]) \/ OnSide(f, c)) /\ (e = Fine(L[3]) \/ OnSide(e, c))
Cells == kind = "line" => LineOk(Line(a, b), a, b)
Splits == kind = "split" => LET s == Chosen(a, b, "all") IN
  Cardinality({g \in DOMAIN s : TRUE}) = Len(s) /\ UNION {{s[g][i] : i \in DOMAIN s[g]} : g \in DOMAIN s} = DOMAIN a
  /\ \A g \in DOMAIN s : \A i, j \in DOMAIN s[g] : a[s[g][i]] = a[s[g][j]]
Emit == PrintT(ToJson([kind |-> kind, a |-> a, b |-> b, c |-> c]))
=============================================================================
