------------------------------ MODULE Resample ------------------------------
(* Legal outcomes of particle resampling, and weighted moments (C04).        *)
(* Weights are integers w[1..n]; sources are particle numbers 1..n.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Cum(w) == [i \in 0..Len(w) |-> Sum(SubSeq(w, 1, i))]
Count(src, i) == Cardinality({k \in DOMAIN src : src[k] = i})
SortedSeq(s) == SortSeq(s, <)
Methods == {"systematic", "stratified", "residual", "choice"}

(* Draw k (from 0) falls at position p = k W + u (in 1 / n of a unit weight) *)
Slice(w, n, src) ==
  LET s == SortedSeq(src)
      C == Cum(w)
  IN [k \in 1..n |-> <<n * C[s[k] - 1] - (k - 1) * C[Len(w)], n * C[s[k]] - (k - 1) * C[Len(w)]>>]
StratifiedOK(w, src) ==
  LET n == Len(w)
      sl == Slice(w, n, src)
  IN \A k \in 1..n : sl[k][1] < Sum(w) /\ sl[k][2] > 0
SystematicOK(w, src) ==
  LET n == Len(w)
      sl == Slice(w, n, src)
      lo == Max({sl[k][1] : k \in 1..n} \cup {0})
      hi == Min({sl[k][2] : k \in 1..n} \cup {Sum(w)})
  IN lo < hi
ResidualOK(w, src) == \A i \in DOMAIN w : Count(src, i) >= (Len(w) * w[i]) \div Sum(w)
Failures(method, w, src) ==
  LET n == Len(w) IN
  IF Len(src) # n THEN {"number of particles"}
  ELSE IF \E k \in 1..n : src[k] \notin 1..n THEN {"copy of an earlier particle"}
  ELSE IF \E k \in 1..n : w[src[k]] = 0 THEN {"particle of zero weight drawn"}
  ELSE (CASE method = "systematic" -> IF SystematicOK(w, src) THEN {} ELSE {"systematic: evenly spaced draws"}
    [] method = "stratified" -> IF StratifiedOK(w, src) THEN {} ELSE {"stratified: one draw from each slice"}
    [] method = "residual" -> IF ResidualOK(w, src) THEN {} ELSE {"residual: at least rounded-down number"}
    [] OTHER -> {})

(* Total number of copies in R repetitions is within 8 standard deviations *)
Unbiased(method, w, R, total) ==
  LET n == Len(w)
      W == Sum(w)
  IN \A i \in DOMAIN w :
     LET D == total[i] * W - R * n * w[i] IN
     D * D <= (CASE method = "systematic" -> 16 * R * W * W
                 [] method = "stratified" -> 32 * R * W * W
                 [] method = "residual" ->
                      16 * R * W * W * (n - Sum([j \in DOMAIN w |-> (n * w[j]) \div W]))
                 [] OTHER -> 64 * R * n * w[i] * (W - w[i]))

(* ---- Moments: W * mean and W^2 * covariance ---- *)
MeanW(p, w, d) == Sum([i \in DOMAIN w |-> w[i] * p[i][d]])
CovW2(p, w, a, b) == Sum(w) * Sum([i \in DOMAIN w |-> w[i] * p[i][a] * p[i][b]]) - MeanW(p, w, a) * MeanW(p, w, b)
=============================================================================
