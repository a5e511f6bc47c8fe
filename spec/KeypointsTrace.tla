--------------------------- MODULE KeypointsTrace ---------------------------
EXTENDS Keypoints, Json, TLC
H == JsonDeserialize("trace.json")
VARIABLES h, l, st, bad
If(name, cond) == IF cond THEN {} ELSE {name}
Inf == 2000000002
\* st: [imgs, t, content, kp, files, mfiles, has, matches]; files by image, mfiles a sequence of [a, b, m]
FileOf(s, a, b) == {x \in DOMAIN s.mfiles : s.mfiles[x].a = a /\ s.mfiles[x].b = b}
Observed(s, e) == [s EXCEPT !.kp = e.kp, !.files = e.files, !.mfiles = e.mfiles, !.has = e.has, !.matches = e.matches, !.imgs = e.imgs, !.mem = e.mem]
Source(s, i, o) == IF s.kp[i].has = 1 THEN s.kp[i] ELSE IF o.kpath = 1 THEN s.files[s.imgs[i]] ELSE None
Missing(s, e) == \E i \in DOMAIN s.imgs : Source(s, i, e).has = 0
Refused(s, e) ==
  CASE e.op = "keypoints" -> e.clear = 1 /\ e.path = 0
    [] e.op = "matches" -> (e.clear = 1 /\ e.path = 0) \/ Missing(s, e)
    [] e.op \in {"drop", "breaks", "convert", "filter", "count"} -> s.has = 0
    [] OTHER -> FALSE
Same(s, e, what) ==
  If(e.op \o ": keypoints in memory", "kp" \notin what \/ e.kp = s.kp) \cup If(e.op \o ": keypoint files", "files" \notin what \/ e.files = s.files)
  \cup If(e.op \o ": match files", "mfiles" \notin what \/ e.mfiles = s.mfiles)
  \cup If(e.op \o ": matches", "matches" \notin what \/ (e.has = s.has /\ e.matches = s.matches))
  \cup If(e.op \o ": images", "imgs" \notin what \/ e.imgs = s.imgs)
\* Match of a pair before it is filtered: computed, or as on file
Right(s, e, i, j, m) ==
  LET f == FileOf(s, s.imgs[i], s.imgs[j]) IN
  IF e.path = 1 /\ e.over = 0 /\ f # {} THEN m = s.mfiles[CHOOSE x \in f : TRUE].m
  ELSE m.has = e.weights /\ Len(m.w) = (IF m.has = 1 THEN Len(m.pts) ELSE 0) /\ Matched(Source(s, i, e).pts, Source(s, j, e).pts, e, m, Inf)
Kinds(e, m) == IF e.kind = "" THEN m.kind = "Matches" ELSE m.kind = e.kind
Built(s, e) ==
  LET S == Selected([i \in DOMAIN s.imgs |-> s.t[s.imgs[i]]], e) IN
  If("matches: error", e.err = "")
  \cup Same(s, e, {"files", "imgs"})
  \cup If("matches: in memory", e.has = 1 - e.clear)
  \cup (IF e.clear = 1 THEN {} ELSE
        If("matches: pairs", Len(e.matches) = Cardinality(S) /\ \A x \in DOMAIN e.matches :
             /\ <<e.matches[x].i, e.matches[x].j>> \in S
             /\ \A y \in DOMAIN e.matches : x < y => (e.matches[x].i < e.matches[y].i \/ (e.matches[x].i = e.matches[y].i /\ e.matches[x].j < e.matches[y].j)))
        \cup If("matches: kind", \A x \in DOMAIN e.matches : Kinds(e, e.matches[x]))
        \* (filtered as written to file)
        \cup If("matches: points", \A x \in DOMAIN e.matches :
             IF e.dofilter = 0 THEN Right(s, e, e.matches[x].i, e.matches[x].j, e.matches[x].m)
             ELSE \E y \in DOMAIN e.mfiles : /\ <<e.mfiles[y].a, e.mfiles[y].b>> = <<s.imgs[e.matches[x].i], s.imgs[e.matches[x].j]>>
                                             /\ e.matches[x].m = Passing(e.mfiles[y].m, e.f)))
  \cup If("matches: files", LET all == {<<e.mfiles[x].a, e.mfiles[x].b>> : x \in DOMAIN e.mfiles} old == {<<s.mfiles[x].a, s.mfiles[x].b>> : x \in DOMAIN s.mfiles}
                               new == IF e.path = 1 THEN {<<s.imgs[p[1]], s.imgs[p[2]]>> : p \in S} ELSE {} IN
        /\ all = old \cup new
        /\ \A x \in DOMAIN e.mfiles : LET a == e.mfiles[x].a b == e.mfiles[x].b f == FileOf(s, a, b) IN
             IF <<a, b>> \in new /\ (e.over = 1 \/ f = {})
             THEN \E i, j \in DOMAIN s.imgs : s.imgs[i] = a /\ s.imgs[j] = b /\ Right(s, [e EXCEPT !.over = 1], i, j, e.mfiles[x].m)
             ELSE e.mfiles[x] = s.mfiles[CHOOSE y \in f : TRUE])
  \cup If("matches: keypoints in memory", Len(e.kp) = Len(s.kp) /\ \A i \in DOMAIN e.kp :
        \/ e.kp[i] = s.kp[i] /\ (e.clearkp = 0 \/ e.parallel = 1)
        \/ e.clearkp = 0 /\ s.kp[i].has = 0 /\ e.kpath = 1 /\ e.kp[i] = s.files[s.imgs[i]]
        \/ e.clearkp = 1 /\ e.kp[i] = None)
Judge(e, s) ==
  LET n == Len(s.imgs) IN
  If("cameras", e.own = 1) \cup
  IF Refused(s, e) THEN If(e.op \o ": refused", e.err # "") \cup Same(s, e, {"files", "matches", "imgs"}) \cup (IF e.op = "matches" THEN {} ELSE Same(s, e, {"mfiles", "kp"}))
  ELSE CASE e.op = "edit" -> Same(s, e, {"kp", "files", "mfiles", "matches", "imgs"})
    [] e.op = "keypoints" ->
         LET r == [i \in 1..n |-> KeypointsOf(s.kp[i], s.files[s.imgs[i]], s.content[s.imgs[i]], [e EXCEPT !.box = e.boxes[i]])] IN
         If("images in memory", e.parallel = 1 \/ \A i \in 1..n :
              e.mem[i] = IF Find(s.kp[i], s.files[s.imgs[i]], e) THEN e.keepimg ELSE s.mem[i])
         \cup If("keypoints: error", e.err = "") \cup Same(s, e, {"mfiles", "matches", "imgs"})
         \cup If("keypoints: in memory", Len(e.kp) = n /\ \A i \in 1..n : e.kp[i] = r[i].kp)
         \cup If("keypoints: files", \A x \in DOMAIN e.files : e.files[x] =
                (IF \E i \in 1..n : s.imgs[i] = x THEN r[CHOOSE i \in 1..n : s.imgs[i] = x].file ELSE s.files[x]))
    [] e.op = "matches" -> Built(s, e)
    [] e.op = "drop" ->
         LET q == Dropped(s.matches, {e.gone[x] : x \in DOMAIN e.gone}) k == Kept(n, q) IN
         If("drop: error", e.err = "") \cup Same(s, e, {"files", "mfiles"})
         \cup If("drop: images", e.imgs = [x \in DOMAIN k |-> s.imgs[k[x]]])
         \cup If("drop: matches", e.matches = Renumbered(q, k))
         \cup If("drop: keypoints", e.kp = [x \in DOMAIN k |-> s.kp[k[x]]])
    [] e.op = "breaks" -> If("breaks", e.err = "" /\ Len(e.found) = Cardinality({e.found[x] : x \in DOMAIN e.found})
                             /\ {e.found[x] : x \in DOMAIN e.found} = Breaks(n, s.matches, e.least)) \cup Same(s, e, {"kp", "files", "mfiles", "matches", "imgs"})
    [] e.op = "count" -> If("points per image", e.err = "" /\ e.points = Points(n, s.matches)) \cup If("images per image", e.err = "" /\ e.images = Images(n, s.matches))
                         \cup Same(s, e, {"kp", "files", "mfiles", "matches", "imgs"})
    [] e.op = "convert" ->
         If("convert: error", e.err = "") \cup Same(s, e, {"kp", "files", "mfiles", "imgs"})
         \cup If("convert: matches", Len(e.matches) = Len(s.matches) /\ \A x \in DOMAIN s.matches :
              e.matches[x].i = s.matches[x].i /\ e.matches[x].j = s.matches[x].j /\ e.matches[x].m = s.matches[x].m /\ e.matches[x].kind = e.kind)
         \cup If("convert: image points", \A x \in DOMAIN e.matches : (e.clearuv = 1 /\ e.kind \in {"RotationMatchesXY", "RotationMatchesXYZ"}) => e.matches[x].uv = 0)
    [] e.op = "filter" ->
         If("filter: error", e.err = "") \cup Same(s, e, {"kp", "files", "mfiles", "imgs"})
         \cup If("filter: matches", Len(e.matches) = Len(s.matches) /\ \A x \in DOMAIN s.matches :
              LET p == Passing(s.matches[x].m, e.f) IN
              e.matches[x] = [s.matches[x] EXCEPT !.m = IF e.clearw = 1 THEN [p EXCEPT !.has = 0, !.w = <<>>] ELSE p])
    [] OTHER -> {}
Post(s, e) == IF e.op = "edit" THEN [s EXCEPT !.content[e.id] = e.new, !.mem = e.mem] ELSE Observed(s, e)
TraceInit == h \in 1..Len(H) /\ l = 0 /\ bad = {} /\ st = [imgs |-> H[h].imgs, t |-> H[h].t, content |-> H[h].content,
   kp |-> [i \in DOMAIN H[h].imgs |-> None], files |-> [i \in DOMAIN H[h].t |-> None], mfiles |-> <<>>, has |-> 0, matches |-> <<>>, mem |-> [i \in DOMAIN H[h].imgs |-> 0]]
TraceNext == LET e == H[h].ev[l + 1] IN
  l < Len(H[h].ev) /\ l' = l + 1 /\ h' = h /\ bad' = Judge(e, st) /\ st' = Post(st, e)
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, st, bad>>
Report == bad = {} \/ PrintT(ToJson([tag |-> "BAD", h |-> h, l |-> l, bad |-> bad]))
=============================================================================
