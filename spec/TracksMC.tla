------------------------------ MODULE TracksMC -------------------------------
(* Tracks that become and cease to be defined as time goes on, and every way to select them. *)
EXTENDS Tracks, Json, TLC
CONSTANTS N, Last
VARIABLES M, sel
Estimate(i, t) == <<i, t, 0, i - t, 2 * i, t>>
Selections == {[kind |-> "all", v |-> <<>>]} \cup {[kind |-> "slice", v |-> <<a, b, s>>] : a \in {NONE, 1, -1}, b \in {NONE, 2, -1}, s \in {NONE, 2, -1}}
  \cup {[kind |-> "list", v |-> v] : v \in {<<>>, <<0>>, <<-1>>, <<1, 0>>, <<0, 0, N - 1>>}} \cup {[kind |-> "mask", v |-> v] : v \in [1..N -> {0, 1}]}
Init == sel \in Selections /\ \E D \in SUBSET (1..N) : M = [i \in 1..N |-> <<IF i \in D THEN Estimate(i, 1) ELSE <<>>>>]
Next == /\ Len(M[1]) < Last /\ sel' = sel
        /\ \E D \in SUBSET (1..N) : M' = [i \in 1..N |-> Append(M[i], IF i \in D THEN Estimate(i, Len(M[i]) + 1) ELSE <<>>)]
Spec == Init /\ [][Next]_<<M, sel>>
C == Chosen(sel, N)
E == Ends(M, C)
Selected == \A k \in DOMAIN C : C[k] \in 1..N
\* Odd and even make all
Halves == LET a == Chosen([kind |-> "slice", v |-> <<NONE, NONE, 2>>], N) b == Chosen([kind |-> "slice", v |-> <<1, NONE, 2>>], N) IN
  {a[i] : i \in DOMAIN a} \cup {b[i] : i \in DOMAIN b} = 1..N /\ Len(a) + Len(b) = N
EndsDefined == /\ Len(E[1]) = Len(C) /\ Len(E[2]) = Len(E[3]) /\ Len(E[2]) = Cardinality({k \in DOMAIN C : E[1][k] = 1})
  /\ \A j \in DOMAIN E[2] : LET k == CHOOSE k \in DOMAIN C : E[1][k] = 1 /\ Cardinality({m \in 1..k : E[1][m] = 1}) = j d == Defined(M, C[k]) IN
       E[2][j] <= E[3][j] /\ E[2][j] + 1 \in d /\ E[3][j] + 1 \in d /\ \A t \in d : E[2][j] < t /\ t <= E[3][j] + 1
\* Starts never change
Starts == [][\A j \in DOMAIN C : E[1][j] = 1 => Ends(M', C)[1][j] = 1 /\ Ends(M', <<C[j]>>)[2] = Ends(M, <<C[j]>>)[2]]_<<M, sel>>
\* Each frame leads to a later one
Forward == \A i \in 1..N : LET f == Frames(M, [t \in Times(M) |-> 0], i, 0..Last) IN
  Len(f) = Max2(0, Cardinality(Defined(M, i)) - 1) /\ \A k \in DOMAIN f : Until(M, [t \in Times(M) |-> 0], [t \in Times(M) |-> t], i, 0..Last, f[k]) >= 1
Emit == PrintT(ToJson([M |-> M, sel |-> sel]))
=============================================================================
