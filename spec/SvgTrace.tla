------------------------------ MODULE SvgTrace ------------------------------
EXTENDS Svg, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Judge(e) ==
  CASE e.op = "shape" -> If("shape: error", e.err = "") \cup If("vertices of " \o e.e.tag, e.err # "" \/ e.xy = Shape(e.e))
    [] e.op = "transform" -> If("transform: error", e.err = "") \cup If("transform", e.err # "" \/ e.xy = Moved(Matrix(e.t), e.from))
    [] e.op = "list" -> If("order of transforms", e.err = "" /\ e.xy = Transformed(e.list, e.from))
    [] e.op = "list either" -> If("transforms in order", e.err = "" /\ (e.xy = Transformed(e.list, e.from) \/ e.xy = Reversed(e.list, e.from)))
    [] e.op = "document" ->
         IF e.roots # 1 \/ (e.size # <<>> /\ e.images = 0) THEN If("document: refused", e.err = "ValueError")
         ELSE IF e.err # "" THEN {"document: error"} ELSE If("document", Same(Result(e.root, e.key, e.size), e.got))
    [] e.op = "written" -> If("written: error", e.err = "") \cup If("written as " \o e.tag, e.err # "" \/ e.xy = Written(e.tag, e.from))
    [] e.op = "refused" -> If("refused", e.err = "ValueError")
    [] OTHER -> {"unknown"}
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
