----------------------------- MODULE StorageMC ------------------------------
(* Every raster of two cells, written and read N times with every option.    *)
EXTENDS Storage, Json, TLC
CONSTANTS N
VARIABLES r0, r, ops
vars == <<r0, r, ops>>
Opt == {None, "0", "-9"}
Vals(t) == {"0", "1", "-9"} \cup (IF t \in Floats THEN {Nan} ELSE {})
Init == /\ \E t \in {"int16", "float32"} : \E v \in [1..2 -> Vals(t)] :
             r0 = [t |-> t, v |-> <<<<<<v[1], v[2]>>>>>>, n |-> <<2, 1>>, xl |-> <<0, 32>>, yl |-> <<16, 0>>, crs |-> 0]
        /\ r = r0 /\ ops = <<>>
Next == /\ Len(ops) < N
        /\ \E w \in Opt, o \in Opt :
             /\ r' = Opened(Written(r, w), 1, o)
             /\ ops' = Append(ops, [w |-> w, o |-> o])
        /\ r0' = r0
Spec == Init /\ [][Next]_vars
Cells(x) == {x.v[1][1][c] : c \in 1..2}
Is(p, q) == p.v = q.v /\ p.t = q.t /\ p.xl = q.xl /\ p.yl = q.yl /\ p.n = q.n
(* A raster survives writing and reading with a nodata value it does not use *)
Survives == (\A i \in DOMAIN ops : ops[i].o = None /\ (ops[i].w # None => ops[i].w \notin Cells(r0))) => Is(r, r0)
\* Integers survive whatever the nodata value written
IntegersSurvive == (r0.t \notin Floats /\ \A i \in DOMAIN ops : ops[i].o = None) => Is(r, r0)
\* Nothing but missing values is ever changed, and missing values stay missing
OnlyMissing == \A c \in 1..2 : \/ r.v[1][1][c] = r0.v[1][1][c] \/ r.v[1][1][c] = Nan
                               \/ \E i \in DOMAIN ops : ops[i].w = r.v[1][1][c]
StaysMissing == (\A i \in DOMAIN ops : ops[i].o = None) => \A c \in 1..2 : r0.v[1][1][c] = Nan => r.v[1][1][c] = Nan
Emit == Len(ops) = N => PrintT(ToJson([t |-> r0.t, v |-> r0.v, ops |-> ops]))
=============================================================================
