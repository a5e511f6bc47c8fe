---------------------------- MODULE ReadCacheMC -----------------------------
(* Every sequence of N operations on a file.                                 *)
EXTENDS ReadCache, Json, TLC
CONSTANTS N
VARIABLES st, ops, got
vars == <<st, ops, got>>
V == [m |-> <<2, 2>>]
Sizes == {<<1, 1>>, <<2, 2>>, <<8, 8>>, <<2, 1>>}
Ops == [op : {"read"}, box : {"full", "part"}, cache : {0, 1}, m : {<<0, 0>>}]
       \cup [op : {"clear", "rewrite", "use"}, box : {""}, cache : {0}, m : {<<0, 0>>}]
       \cup [op : {"resize"}, box : {""}, cache : {0}, m : Sizes]
Init == st = Fresh(V) /\ ops = <<>> /\ got = {1}
Next == /\ Len(ops) < N
        /\ \E o \in Ops :
             /\ (o.op = "rewrite" => st.file < 3)
             /\ (o.op = "resize" => o.m # st.m)
             /\ ops' = Append(ops, o)
             /\ st' = After(st, o)
             /\ got' = IF o.op = "read" THEN Versions(st, o.cache) ELSE got
Spec == Init /\ [][Next]_vars
Never(op) == \A i \in DOMAIN ops : ops[i].op # op
\* Without changes to the file, every read is the file
Faithful == Never("rewrite") => got = {1}
\* What is kept is a version of the file, and only cached reads change it
KeptIsAVersion == st.kept \in 0..st.file /\ (st.kept = 0 <=> st.keptm = <<0, 0>>)
OnlyCachedReads == (\A i \in DOMAIN ops : ops[i].op = "read" => ops[i].cache = 0) => st.kept = 0
Emit == Len(ops) = N => PrintT(ToJson(ops))
=============================================================================
