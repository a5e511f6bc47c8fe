--------------------------- MODULE VisibilityTrace ---------------------------
EXTENDS Visibility, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Set(s) == {s[i] : i \in DOMAIN s}
\* e.g: 32 times the effective radius, possibly between two numbers
Outcomes(e, d) == LET a == Horizon(e.T, e.o, e.z, d, e.g[1]) IN
  IF Len(e.g) = 1 THEN a ELSE LET b == Horizon(e.T, e.o, e.z, d, e.g[2]) IN IF a = b /\ Cardinality(a) = 1 THEN a ELSE {}
Judge(e) ==
  CASE e.op = "seen" -> If("seen: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("seen: shape and type", e.ok = 1) \cup If("seen: raster unchanged", e.same = 1)
         \cup (IF e.ok = 0 THEN {} ELSE If("seen: cells", WrongCells(e.o, e.z, e.T, e.g[1], [c \in Cells(e.T) |-> e.got[c[2]][c[1]] = 1]) = {})))
    [] e.op = "horizon" -> If("horizon: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("horizon: raster unchanged", e.same = 1)
         \cup If("horizon: highest along each heading", \A i \in DOMAIN e.dirs : LET p == Outcomes(e, e.dirs[i]) IN p = {} \/ e.got[i] \in p)
         \cup If("horizon: segments", LET m == [i \in DOMAIN e.got |-> e.got[i] # <<>>] s == Chosen(m, TRUE, "true") IN
                Len(e.all) = Len(s) /\ Set(e.all) = {[j \in DOMAIN s[k] |-> e.got[s[k][j]][1]] : k \in DOMAIN s}))
    [] OTHER -> {"unknown"}
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
