------------------------------ MODULE PlotsTrace ------------------------------
EXTENDS Plots, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
\* Arrows drawn of some points of a control
Drawn(cams, sizes, k, to, c, got) ==
  CASE k.kind = "points" -> LET p == Points(cams, sizes, k) IN got = [j \in DOMAIN c |-> Arrow(k.uv[c[j]], p[c[j]])]
    [] k.kind = "matches" -> LET p == Match(cams, sizes, k, to) IN got = [j \in DOMAIN c |-> Arrow(k.uvs[to][c[j]], p[c[j]])]
    [] OTHER -> LET s == Projected(cams, sizes, k) uv == Flat(k.uvs) IN Len(got) = Len(c) /\ \A j \in DOMAIN c :
         <<got[j][1], got[j][2]>> = uv[c[j]] /\ Nearest(s, uv[c[j]], <<got[j][1] + got[j][3], got[j][2] + got[j][4]>>)
Size(k) == CASE k.kind = "points" -> Len(k.uv) [] k.kind = "matches" -> Len(k.uvs[1]) [] OTHER -> Len(Flat(k.uvs))
\* One result: arrows of each part, and lines
Result(cams, sizes, k, to, r, e) == LET n == Size(k) p == Parts(Chosen(e.sel, n), n, e.hide) IN
  If("unselected points", Drawn(cams, sizes, k, to, p[1], r.unselected) /\ r.none[1] = (IF p[1] = <<>> THEN 1 ELSE 0))
  \cup If("selected points", Drawn(cams, sizes, k, to, p[2], r.selected) /\ r.none[2] = (IF p[2] = <<>> THEN 1 ELSE 0))
  \cup If("observed lines", k.kind # "lines" \/ r.observed = IF e.hide[3] = 1 THEN <<>> ELSE k.uvs)
  \cup If("predicted lines", k.kind # "lines" \/ r.predicted = IF e.hide[4] = 1 THEN <<>> ELSE Projected(cams, sizes, k))
  \cup If("style", r.style = 1)
Role(k, cam) == IF k.kind = "matches" THEN (IF k.cams[1] = cam THEN 1 ELSE 2) ELSE 1
Shown(e, cams, ks, cam) == LET sizes == H[h].sizes IN
  If("no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
    If("results of each control", Len(e.results) = Len(ks))
    \cup (IF Len(e.results) # Len(ks) THEN {} ELSE UNION {Result(cams, sizes, ks[i], Role(ks[i], cam), e.results[i], e) : i \in DOMAIN ks})
    \cup If("alone", e.alone = 1) \cup If("earlier plots", e.stays = 1)
    \cup If("limits", IF e.opened = 1 /\ ks # <<>> THEN e.limits = Limits(sizes[cam]) ELSE e.opened = 1 \/ e.limits = <<>>)
    \cup If("unchanged", e.same = 1))
\* Value of a polynomial
RECURSIVE Horner(_, _)
Horner(p, x) == IF p = <<>> THEN 0 ELSE Horner(SubSeq(p, 1, Len(p) - 1), x) * x + p[Len(p)]
Judge(e) == LET ks == H[h].controls cams == H[h].cams IN
  CASE e.op = "plot" -> Shown(e, cams, <<ks[e.control]>>, e.cam)
    [] e.op = "cameras" -> Shown(e, IF e.moved = <<>> THEN cams ELSE [cams EXCEPT ![e.moved[1]] = <<cams[e.moved[1]][1], cams[e.moved[1]][2], e.moved[2], e.moved[3]>>],
                                 Of(Pick(ks, e.controls), e.cam), e.cam)
    [] e.op = "refused" -> If("refused", e.err = e.want) \cup If("unchanged", e.same = 1)
    [] e.op = "weights" -> If("weights", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         LET n == Len(e.w) c == Chosen(e.sel, n) IN
         \* NB relative to their mean
         If("weights: points", e.got = Pick(e.uv, c)) \cup If("weights: values", e.color = [k \in DOMAIN c |-> n * e.w[c[k]]] /\ e.size = e.color))
    [] e.op = "polynomial" -> If("polynomial", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         LET n == Len(e.xy) c == Chosen(e.sel, n) p == Parts(c, n, e.hide) IN
         If("polynomial: points", e.got = <<Pick(e.xy, p[1]), Pick(e.xy, p[2])>>)
         \cup If("polynomial: hidden", e.none = [i \in 1..2 |-> IF p[i] = <<>> THEN 1 ELSE 0])
         \cup If("polynomial: curve", e.line = IF e.hide[3] = 1 THEN <<>> ELSE [i \in 1..n |-> <<e.xy[i][1], Horner(e.p, e.xy[i][1])>>]))
    [] e.op = "raster" -> If("raster", e.err = "") \cup (IF e.err # "" THEN {} ELSE
         If("raster: cells", e.x = [i \in 1..e.shape[2] |-> Center2(e.xlim, e.shape[2], i)] /\ e.y = [i \in 1..e.shape[1] |-> Center2(e.ylim, e.shape[1], i)])
         \cup If("raster: values", e.values = 1) \cup If("raster: limits", e.limits = <<e.xlim, <<e.ylim[2], e.ylim[1]>>>>))
    [] e.op = "box" -> If("box", e.err = "" /\ e.got = e.box)
    [] OTHER -> {"unknown"}
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1])
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
