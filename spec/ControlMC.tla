----------------------------- MODULE ControlMC ------------------------------
(* Every sequence of N operations on points and on matches.                   *)
EXTENDS Control, Json, TLC
CONSTANTS N
VARIABLES cams, ctrl, ops
vars == <<cams, ctrl, ops>>
Cam(sz, f) == [xyz |-> <<0, 0, 0>>, imgsz |-> sz, orig |-> sz, f |-> <<f * U, f * U>>, c |-> <<0, 0>>, roll |-> 0]
Cams0 == <<Cam(<<32, 16>>, 8), Cam(<<64, 32>>, 16)>>
UV0 == << << <<16 * U, 8 * U>>, <<20 * U, 4 * U>>, <<4 * U, 12 * U>> >>, << <<32 * U, 16 * U>>, <<42 * U, 8 * U>>, <<24 * U, 30 * U>> >> >>
W0 == <<2, 5, 3>>
Base == [dir |-> 0, xyz |-> <<>>, axis |-> 1, at |-> <<0, 0, 0>>]
Make(kind) == Base @@ [kind |-> kind, cams |-> <<1, 2>>, uvs |-> UV0, w |-> W0, has |-> 1, last |-> <<Cams0[1].imgsz, Cams0[2].imgsz>>,
                       int |-> <<Internals(Cams0[1]), Internals(Cams0[2])>>]
F(best, least, error, distance) == [op |-> "filter", best |-> best, least |-> least, error |-> error, distance |-> distance, scaled |-> 0, side |-> 1, num |-> <<0, 0>>, den |-> 2, kind |-> ""]
O(op, num, kind) == [F(0, 0, 0, 0) EXCEPT !.op = op, !.num = num, !.kind = kind]
Ops == {O("resize", <<1, 1>>, ""), O("resize", <<4, 4>>, ""), O("resize", <<2, 2>>, ""), O("resize", <<2, 4>>, ""), O("follow", <<0, 0>>, ""),
        O("camera", <<1, 1>>, ""), O("camera", <<2, 2>>, ""), F(2, 0, 0, 0), F(0, 3, 0, 0), F(0, 0, 3 * U, 0), F(0, 0, 0, 8 * U)}
       \cup {O("convert", <<0, 0>>, k) : k \in {"Matches", "RotationMatches", "RotationMatchesXY", "RotationMatchesXYZ"}}
Allowed(o) ==
  /\ o.op \in {"resize", "follow"} => ctrl.kind = "Matches"
  /\ (o.error # 0 \/ o.distance # 0) => ~Refused(cams, ctrl)
  /\ o.op = "convert" => (ctrl.last = Sizes(cams, ctrl) /\ ~Stale(cams, ctrl))
Init == cams = Cams0 /\ ctrl = Make("Matches") /\ ops = <<>>
Next == /\ Len(ops) < N
        /\ \E o \in Ops :
             /\ Allowed(o)
             /\ ops' = Append(ops, o)
             /\ cams' = (CASE o.op = "resize" -> ResizeCams(cams, ctrl, o.num, o.den)
                           [] o.op = "camera" -> [cams EXCEPT ![2] = Resized(@, o.num, o.den)] [] OTHER -> cams)
             /\ ctrl' = (CASE o.op \in {"resize", "follow"} -> Followed(cams', ctrl) [] o.op = "filter" -> Filtered(cams, ctrl, o)
                           [] o.op = "convert" -> Converted(cams, ctrl, o.kind) [] OTHER -> ctrl)
Spec == Init /\ [][Next]_vars
\* Which of the original pairs are left, by weight
Left == {n \in 1..3 : \E m \in DOMAIN ctrl.w : ctrl.w[m] = W0[n]}
\* Image points keep their place in the image to which they are scaled, paired and in order
InPlace == \A i \in 1..2 : ctrl.uvs[i] = ScaledTo(Sub(UV0[i], Left, 1), Cams0[i].imgsz, ctrl.last[i])
Aligned == Len(ctrl.uvs[1]) = Len(ctrl.uvs[2]) /\ Len(ctrl.w) = Len(ctrl.uvs[1]) /\ ctrl.w = Sub(W0, Left, 1)
\* Errors relative to the image are those of the original, whatever the kind
SameErrors == (~Refused(cams, ctrl) /\ ctrl.last = Sizes(cams, ctrl)) =>
  \A i \in 1..2 : LET p == PredictedPair(cams, ctrl, i) o == ObservedPair(cams, ctrl, i) m == Make("Matches") IN
    \A n \in DOMAIN p : LET k == CHOOSE k \in Left : W0[k] = ctrl.w[n]
                            d0 == Minus(PredictedPair(Cams0, m, i)[k], UV0[i][k]) IN
      CASE ctrl.kind = "RotationMatchesXYZ" -> TRUE
        [] ctrl.kind = "RotationMatchesXY" -> \A a \in 1..2 : (p[n][a] - o[n][a]) * (Cams0[i].f[1] \div U) = d0[a]
        [] OTHER -> \A a \in 1..2 : (p[n][a] - o[n][a]) * Cams0[i].imgsz[a] = d0[a] * ctrl.last[i][a]
Emit == Len(ops) = N => PrintT(ToJson(ops))
=============================================================================
