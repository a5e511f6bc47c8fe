----------------------------- MODULE ResampleMC -----------------------------
(* Systematic, stratified and residual draws over a grid of random numbers:  *)
(* every outcome is legal, and the mean number of copies is proportional.    *)
EXTENDS Resample, Json, TLC
CONSTANTS N, M, K
VARIABLES w, u, method
vars == <<w, u, method>>
Weights == {v \in [1..N -> 0..M] : Sum(v) > 0}
\* Source of a position p / (2 K n) of the total weight
At(v, p) == CHOOSE i \in 1..N : Cum(v)[i - 1] * 2 * K * N < p * Sum(v) /\ p * Sum(v) <= Cum(v)[i] * 2 * K * N
\* Random numbers are (2 r + 1) / (2 K), r in 0..K - 1
Systematic(v, r) == [k \in 1..N |-> At(v, 2 * K * (k - 1) + 2 * r + 1)]
Stratified(v, rs) == [k \in 1..N |-> At(v, 2 * K * (k - 1) + 2 * rs[k] + 1)]
Init == /\ w \in Weights
        /\ method \in {"systematic", "stratified"}
        /\ u = [k \in 1..N |-> 0]
Next == /\ UNCHANGED <<w, method>>
        /\ u' \in (IF method = "systematic" THEN {[k \in 1..N |-> r] : r \in 0..K - 1} ELSE [1..N -> 0..K - 1])
Spec == Init /\ [][Next]_vars
Outcome == IF method = "systematic" THEN Systematic(w, u[1]) ELSE Stratified(w, u)
Legal == Failures(method, w, Outcome) = {}
\* One draw per slice, and rounded expected number of copies
FloorCeil == method = "systematic" => \A i \in 1..N :
  Count(Outcome, i) \in {(N * w[i]) \div Sum(w), -((-N * w[i]) \div Sum(w))}
\* Total number of copies over the grid is within one of proportional
Proportional == \A i \in 1..N :
  LET t == Sum([r \in 1..K |-> Count(Systematic(w, r - 1), i)])
      d == t * Sum(w) - K * N * w[i]
  IN d <= N * Sum(w) /\ -d <= N * Sum(w)
Emit == (method = "systematic" /\ \A k \in 1..N : u[k] = 0) => PrintT(ToJson(w))
=============================================================================
