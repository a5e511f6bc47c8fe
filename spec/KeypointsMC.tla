---------------------------- MODULE KeypointsMC -----------------------------
(* Every sequence of N requests on three images whose content may change.     *)
EXTENDS Keypoints, Json, TLC
CONSTANTS N
VARIABLES imgs, ver, kp, file, mfile, m, ops
vars == <<imgs, ver, kp, file, mfile, m, ops>>
Id == 1..3
\* Image id in its given version: two points, that move from one version to the next
Content(id, v) == << <<v, id, 10 * id>>, <<v + 3, id, 50 + 7 * id>> >>
Opt == [cross |-> 1, ratio |-> 0, dist |-> 0, weights |-> 0, box |-> <<>>]
K(path, over, clear) == [op |-> "keypoints", path |-> path, over |-> over, clear |-> clear, box |-> <<>>, least |-> 0]
M(path, kpath, over, clearkp, clear, useseq, useimgs) ==
  [op |-> "matches", path |-> path, kpath |-> kpath, over |-> over, clearkp |-> clearkp, clear |-> clear, maxdt |-> -1,
   seq |-> <<1>>, useseq |-> useseq, sel |-> <<1>>, useimgs |-> useimgs]
Ops == {K(1, 0, 0), K(1, 1, 0), K(0, 0, 0), K(0, 1, 0), K(1, 0, 1), K(1, 1, 1)}
       \cup {M(0, 0, 0, 1, 0, 0, 0), M(0, 1, 0, 0, 0, 1, 0), M(1, 1, 0, 1, 0, 0, 1), M(1, 0, 1, 0, 0, 1, 0), M(1, 1, 0, 1, 1, 0, 0)}
       \cup {[op |-> "edit", id |-> 2], [op |-> "drop", gone |-> <<1>>], [op |-> "drop", gone |-> <<2>>]}
NP == Len(imgs)
Now(id) == Content(id, ver[id])
Source(i, o) == IF kp[i].has = 1 THEN kp[i] ELSE IF o.kpath = 1 THEN file[imgs[i]] ELSE None
Order == [x \in 1..9 |-> <<((x - 1) \div 3) + 1, ((x - 1) % 3) + 1>>]
Made(o) ==
  LET S == Selected([i \in 1..NP |-> i], o) P == SelectSeq(Order, LAMBDA p : p \in S) IN
  [x \in DOMAIN P |-> LET a == imgs[P[x][1]] b == imgs[P[x][2]] IN
    [i |-> P[x][1], j |-> P[x][2],
     pts |-> IF o.path = 1 /\ o.over = 0 /\ mfile[<<a, b>>].has = 1 THEN mfile[<<a, b>>].pts
             ELSE MatchOf(Source(P[x][1], o).pts, Source(P[x][2], o).pts, Opt)]]
Allowed(o) ==
  CASE o.op = "matches" -> NP > 0 /\ \A i \in 1..NP : Source(i, o).has = 1
    [] o.op = "drop" -> m.has = 1 /\ NP = 3
    [] o.op = "keypoints" -> NP > 0
    [] OTHER -> ver[o.id] = 0
Init == /\ imgs = <<1, 2, 3>> /\ ver = [i \in Id |-> 0] /\ kp = [i \in 1..3 |-> None] /\ file = [i \in Id |-> None]
        /\ mfile = [p \in Id \X Id |-> None] /\ m = None /\ ops = <<>>
Do(o) ==
  CASE o.op = "keypoints" ->
         LET r == [i \in 1..NP |-> KeypointsOf(kp[i], file[imgs[i]], Now(imgs[i]), o)] IN
         /\ kp' = [i \in 1..NP |-> r[i].kp]
         /\ file' = [id \in Id |-> IF \E i \in 1..NP : imgs[i] = id THEN r[CHOOSE i \in 1..NP : imgs[i] = id].file ELSE file[id]]
         /\ UNCHANGED <<imgs, ver, mfile, m>>
    [] o.op = "edit" -> ver' = [ver EXCEPT ![o.id] = 1] /\ UNCHANGED <<imgs, kp, file, mfile, m>>
    [] o.op = "matches" ->
         LET q == Made(o) IN
         /\ m' = (IF o.clear = 1 THEN None ELSE Some(q))
         /\ mfile' = [p \in Id \X Id |-> IF o.path = 1 /\ \E x \in DOMAIN q : <<imgs[q[x].i], imgs[q[x].j]>> = p
                                          THEN Some(q[CHOOSE x \in DOMAIN q : <<imgs[q[x].i], imgs[q[x].j]>> = p].pts) ELSE mfile[p]]
         /\ kp' = [i \in 1..NP |-> IF o.clearkp = 1 THEN None ELSE Source(i, o)]
         /\ UNCHANGED <<imgs, ver, file>>
    [] OTHER ->
         LET q == Dropped(m.pts, {o.gone[x] : x \in DOMAIN o.gone}) k == Kept(NP, q) IN
         /\ m' = Some(Renumbered(q, k)) /\ imgs' = [x \in DOMAIN k |-> imgs[k[x]]] /\ kp' = [x \in DOMAIN k |-> kp[k[x]]]
         /\ UNCHANGED <<ver, file, mfile>>
Next == Len(ops) < N /\ \E o \in Ops : Allowed(o) /\ Do(o) /\ ops' = Append(ops, o)
Spec == Init /\ [][Next]_vars
\* Every pair once, in order; its points are of its own two images, matched in the version in which each was seen
Ordered == \A x, y \in DOMAIN m.pts :
  /\ m.pts[x].i < m.pts[x].j /\ m.pts[x].j <= NP
  /\ x < y => (m.pts[x].i < m.pts[y].i \/ (m.pts[x].i = m.pts[y].i /\ m.pts[x].j < m.pts[y].j))
FromOwn == \A x \in DOMAIN m.pts : \E v \in 0..1, w \in 0..1 :
  m.pts[x].pts = MatchOf(Content(imgs[m.pts[x].i], v), Content(imgs[m.pts[x].j], w), Opt)
OwnFile == \A i \in 1..NP : (kp[i].has = 1 => \E v \in 0..1 : kp[i].pts = Content(imgs[i], v))
              /\ (file[imgs[i]].has = 1 => \E v \in 0..1 : file[imgs[i]].pts = Content(imgs[i], v))
\* Files are only replaced when asked, and then by what is current
OnlyAsked == [][\A id \in Id : (file[id].has = 1 /\ file'[id] # file[id]) => (ops'[Len(ops')].over = 1 /\ file'[id].pts = Now(id))]_vars
MatchesOnlyAsked == [][\A p \in Id \X Id : (mfile[p].has = 1 /\ mfile'[p] # mfile[p]) => ops'[Len(ops')].over = 1]_vars
Emit == Len(ops) = N => PrintT(ToJson(ops))
=============================================================================
