---------------------------- MODULE EvidenceTrace ----------------------------
EXTENDS Evidence, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Inside(b, sz) == b[1] >= 0 /\ b[2] >= 0 /\ b[3] <= sz[1] /\ b[4] <= sz[2]
Floor4(x) == x \div 4
Ceil4(x) == -((-x) \div 4)
\* uv in quarter pixels. Template-sized window around uv reaches ...
Lo(uv, n) == uv - 2 * n
Hi(uv, n) == uv + 2 * n
MinOf(uv, i) == Min({uv[k][i] : k \in DOMAIN uv})
MaxOf(uv, i) == Max({uv[k][i] : k \in DOMAIN uv})
Needs(uv, s) == <<Floor4(Lo(MinOf(uv, 1), s[1])), Floor4(Lo(MinOf(uv, 2), s[2])), Ceil4(Hi(MaxOf(uv, 1), s[1])), Ceil4(Hi(MaxOf(uv, 2), s[2]))>>
Grow(b, k) == <<b[1] - k, b[2] - k, b[3] + k, b[4] + k>>
Penalties(e, timg, simg) ==
  LET b == e.box
      tb == e.tbox
      w == W(tb)
      t == Ht(tb)
      q == Q(timg, tb, b)
      g == G(timg, tb, simg, b)
      T == Filtered(timg, tb, e.hp)
      S == Filtered(simg, b, e.hp)
      \* Offset of the window of each particle, in quarter pixels
      Du == e.muv[1] - 2 * (tb[1] + tb[3])
      Dv == e.muv[2] - 2 * (tb[2] + tb[4])
      At(c, r) == Scaled(Sum2(T, S, w, t, c, r, g, q), q)
      One(uv) ==
        LET u == uv[1] - Du - 2 * w - 4 * b[1]
            v == uv[2] - Dv - 2 * t - 4 * b[2]
            c == u \div 4
            r == v \div 4
            a == u % 4
            f == v % 4
            X(i, j) == IF (i = 1 /\ a = 0) \/ (j = 1 /\ f = 0) THEN 0
                       ELSE (IF i = 1 THEN a ELSE 4 - a) * (IF j = 1 THEN f ELSE 4 - f) * At(c + i, r + j)
        IN (X(0, 0) + X(1, 0) + X(0, 1) + X(1, 1)) \div 16
  IN [i \in DOMAIN e.uv |-> One(e.uv[i])]
Judge(e, imgs) ==
  CASE e.op = "template" ->
       LET w == e.size[1]
           t == e.size[2]
           inside == Lo(e.muv[1], w) >= 0 /\ Lo(e.muv[2], t) >= 0 /\ Hi(e.muv[1], w) <= 4 * e.imgsz[1] /\ Hi(e.muv[2], t) <= 4 * e.imgsz[2]
           \* Exactly on the edge, up to rounding of the projection
           edge == e.exact = 0 /\ (Lo(e.muv[1], w) = 0 \/ Lo(e.muv[2], t) = 0 \/ Hi(e.muv[1], w) = 4 * e.imgsz[1] \/ Hi(e.muv[2], t) = 4 * e.imgsz[2])
       IN IF edge /\ e.err # "" THEN {} ELSE IF ~inside THEN If("template: beyond the image is an error", e.err # "")
          ELSE If("template: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
          If("template: read once", Len(e.reads) = 1)
          \cup (IF Len(e.reads) # 1 THEN {} ELSE LET b == e.reads[1] IN
          If("template: of the requested size", W(b) = w /\ Ht(b) = t)
          \cup If("template: inside the image", Inside(b, e.imgsz))
          \cup If("template: within half a pixel of the mean", Abs(e.muv[1] - 2 * (b[1] + b[3])) <= 2 /\ Abs(e.muv[2] - 2 * (b[2] + b[4])) <= 2)))
    [] e.op = "evidence" ->
       LET \* Positions relative to the center of the template tile
           du == e.muv[1] - 2 * (e.tbox[1] + e.tbox[3])
           dv == e.muv[2] - 2 * (e.tbox[2] + e.tbox[4])
           need == Needs([i \in DOMAIN e.uv |-> <<e.uv[i][1] - du, e.uv[i][2] - dv>>], e.size)
       IN If("evidence: no error", e.err = "") \cup (IF e.err # "" THEN {} ELSE
       If("evidence: image skipped exactly when the region leaves it",
          (~Inside(need, e.imgsz) => e.skipped = 1) /\ (Inside(Grow(need, e.k + 1), e.imgsz) => e.skipped = 0))
       \cup If("evidence: warns exactly when skipped", e.warned = e.skipped)
       \cup (IF e.skipped = 1 THEN {} ELSE
       If("evidence: one region read", Len(e.reads) = 1 /\ Len(e.p) = Len(e.uv))
       \cup (IF Len(e.reads) # 1 \/ Len(e.p) # Len(e.uv) THEN {} ELSE
       If("evidence: region is inside the image", Inside(e.box, e.imgsz))
       \cup If("evidence: region contains the window around every particle",
            e.box[1] <= need[1] /\ e.box[2] <= need[2] /\ e.box[3] >= need[3] /\ e.box[4] >= need[4])
       \cup If("evidence: penalty is the mean squared difference over twice the squared deviation",
            LET P == Penalties(e, imgs[e.timg], imgs[e.simg]) IN \A i \in DOMAIN P : Abs(P[i] - e.p[i]) <= 4)
       \cup If("evidence: particles are not moved", e.intact = 1))))
    [] e.op = "update" ->
       If("update: no error", e.err = "")
       \cup If("update: weights follow the summed evidence", \A i \in DOMAIN e.logw : Abs(e.logw[i] - e.sum[i]) <= 6)
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {}
TraceNext == l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(H[h].ev[l + 1], H[h].imgs)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
