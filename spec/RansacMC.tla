------------------------------ MODULE RansacMC ------------------------------
(* Samples in every order, keeping the best model: which one is kept depends  *)
(* on the samples seen, not on their order.                                   *)
EXTENDS Ransac, Json, TLC
CONSTANTS Size, Top
VARIABLES x, n, least, g, iterations, seen, best
vars == <<x, n, least, g, iterations, seen, best>>
Most == 1001
Init == /\ x \in [1..Size -> 0..Top] /\ x[1] <= x[2]
        /\ n \in 1..(Size - 1) /\ least \in 0..(Size - 2) /\ g \in {0, 3}
        /\ iterations \in {1, 2, Choose(Size, n)} /\ seen = {} /\ best = {}
\* (the first of those that are equal is kept)
Step(S) == LET c == Candidate(x, g, S, Most, least) IN
  IF best = {} THEN c ELSE IF c # {} /\ Better(CHOOSE a \in c : TRUE, CHOOSE b \in best : TRUE) THEN c ELSE best
Next == /\ Cardinality(seen) < Number(x, n, iterations)
        /\ \E S \in Samples(x, n) \ seen : seen' = seen \cup {S} /\ best' = Step(S)
        /\ UNCHANGED <<x, n, least, g, iterations>>
Spec == Init /\ [][Next]_vars
Kept == LET c == Candidates(x, g, seen, Most, least) IN
  IF c = {} THEN best = {} ELSE best # {} /\ best \subseteq Best(c)
\* Support found from a sample is at least as large as required of it
Supported == \A b \in best : b.p[2] >= n + least + 1 /\ Inliers(x, b.p, Most) # {}
All == Cardinality(seen) = Choose(Size, n) => seen = Samples(x, n)
Emit == seen = {} => PrintT(ToJson([x |-> x, n |-> n, least |-> least, g |-> g, iterations |-> iterations]))
=============================================================================
