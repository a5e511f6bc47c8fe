---------------------------- MODULE DatetimesMC ----------------------------
(* Enumerates requests in a small scope and checks what they must satisfy.   *)
EXTENDS Datetimes, Json, TLC
CONSTANTS N, Kinds
VARIABLE c
No == -99
Subsets2 == {S \in SUBSET (0..N) : Cardinality(S) >= 2}
Reqs == UNION {[1..k -> 0..N] : k \in 2..3}
Track == {[kind |-> "track", obs |-> <<Sorted(A), Sorted(B)>>, req |-> r, maxdt |-> d] :
  A \in {S \in Subsets2 : Cardinality(S) <= 3}, B \in {S \in Subsets2 : Cardinality(S) = 2}, r \in Reqs, d \in {0, 1, -1}}
Sel == {[kind |-> "select", ts |-> Sorted(A), start |-> s, end |-> e, snap |-> p,
  maxdt |-> d, origin |-> o] :
  A \in {S \in SUBSET (0..N + 1) : Cardinality(S) \in 1..3}, s \in {No, -1, 1, 3}, e \in {No, 2, 3},
  p \in {No, 1, 2, 3}, d \in {No, 0, 1}, o \in {0, 1, 7}}
Spl == {[kind |-> "split", ts |-> Sorted(A), n |-> n, overlap |-> v] :
  A \in {S \in SUBSET (0..N + 2) : Cardinality(S) \in 2..6}, n \in 1..3, v \in 0..2}
SplB == {[kind |-> "splitb", ts |-> Sorted(A), brk |-> Sorted(b), overlap |-> v] :
  A \in {S \in SUBSET (0..N + 1) : Cardinality(S) \in 2..5}, b \in {S \in SUBSET (-1..N + 2) : Cardinality(S) \in 1..2}, v \in 0..2}
Cases == (IF "track" \in Kinds THEN Track ELSE {}) \cup (IF "select" \in Kinds THEN Sel ELSE {})
  \cup (IF "split" \in Kinds THEN Spl \cup SplB ELSE {})
Init == c \in Cases
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

TrackOK(x) ==
  LET p == Parse(x.obs, x.req, x.maxdt)
      m == Match(x.obs, p.out, x.maxdt)
  IN p.err = "" =>
     /\ Len(p.out) >= 2
     /\ Increasing(p.out) \/ Increasing(Reverse(p.out))
     /\ Range(p.out) \subseteq Range(x.req)
     \* Every kept time has an image of some observer within tolerance
     /\ \A i \in DOMAIN p.out : \E j \in DOMAIN x.obs : m[i][j] # -1
     \* No dropped time has one
     /\ \A t \in Range(x.req) \ Range(p.out) : Match(x.obs, <<t>>, x.maxdt)[1] = <<-1, -1>>
     \* Matched images are in the order of the times
     /\ \A j \in DOMAIN x.obs : \A a, b \in DOMAIN p.out :
          (p.out[a] < p.out[b] /\ m[a][j] # -1 /\ m[b][j] # -1) => m[a][j] <= m[b][j]
SelectOK(x) ==
  LET r == Select(x.ts, x.start, x.end, x.snap, x.maxdt, x.origin, No)
      wide == Select(x.ts, No, No, x.snap, x.maxdt, x.origin, No)
  IN r.err = "" => \A i \in DOMAIN x.ts : r.out[i] = 1 =>
     /\ (x.start # No => x.ts[i] >= x.start) /\ (x.end # No => x.ts[i] <= x.end)
     /\ (x.snap # No => \E k \in -20..20 :
          2 * Abs(x.ts[i] - (x.origin + k * x.snap)) <= (IF x.maxdt = No THEN x.snap ELSE 2 * x.maxdt))
     \* Bounds only remove
     /\ wide.out[i] = 1
SplitOK(x) ==
  LET r == IF x.kind = "split" THEN SplitN(x.ts, x.n, x.overlap)
           ELSE Split(x.ts, x.brk, 1, x.overlap)
      inside == {i \in DOMAIN x.ts : TRUE}
  IN r.err = "" =>
     \* Loses none
     /\ UNION {Range(r.out[i]) : i \in DOMAIN r.out} = {i - 1 : i \in inside}
     /\ \A i \in DOMAIN r.out : Increasing(r.out[i]) /\ Len(r.out[i]) >= 2
     \* Repeats only the overlap
     /\ \A i \in 1..Len(r.out) - 1 :
          Cardinality(Range(r.out[i]) \cap Range(r.out[i + 1])) =
            (IF x.overlap < Len(r.out[i]) THEN x.overlap ELSE Len(r.out[i]))
OK == CASE c.kind = "track" -> TrackOK(c) [] c.kind = "select" -> SelectOK(c) [] OTHER -> SplitOK(c)
Emit == PrintT(ToJson(c))
=============================================================================
