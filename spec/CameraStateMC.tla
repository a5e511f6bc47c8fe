--------------------------- MODULE CameraStateMC ----------------------------
(* Every sequence of N edits of a camera, one of which may be to a copy.      *)
EXTENDS CameraState, Json, TLC
CONSTANTS N
VARIABLES st, cp, ops
vars == <<st, cp, ops>>
Z2 == <<0, 0>>
Cam0 == [xyz |-> <<0, 0, 0>>, viewdir |-> <<0, 0, 0>>, imgsz |-> <<8, 4>>, f |-> <<3 * Q0, 5 * Q0>>, c |-> <<Q0, -Q0>>,
         k |-> Fill(<<Q0>>, 6), p |-> Z2, sensorsz |-> <<16 * Q0, 16 * Q0>>]
E(op, attr, v, i, force) == [op |-> op, attr |-> attr, v |-> v, i |-> i, force |-> force]
Edits == {E("set", "imgsz", <<4, 8>>, 0, 0), E("set", "f", <<7 * Q0>>, 0, 0), E("set", "k", <<Q0, 2 * Q0>>, 0, 0),
          E("set", "fmm", <<6 * Q0, 10 * Q0>>, 0, 0), E("set", "sensorsz", <<8 * Q0, 16 * Q0>>, 0, 0), E("set", "sensorsz", <<>>, 0, 0),
          E("item", "f", <<9 * Q0>>, 2, 0), E("item", "c", <<4 * Q0>>, 1, 0),
          E("factor", "", <<1, 2>>, 0, 0), E("factor", "", <<2, 1>>, 0, 0), E("factor", "", <<1, 1>>, 0, 0),
          E("size", "", <<16, 8>>, 0, 0), E("size", "", <<8, 8>>, 0, 0), E("size", "", <<8, 8>>, 0, 1),
          E("reset", "", <<>>, 0, 0), E("idealize", "", <<>>, 0, 0), E("fraction", "", <<>>, 0, 0)}
Init == st = Fresh(Cam0) /\ cp = <<>> /\ ops = <<>>
Next == /\ Len(ops) < N
        /\ \/ \E e \in Edits : st' = After(st, e) /\ cp' = cp /\ ops' = Append(ops, <<1, e>>)
           \/ \E e \in Edits : cp # <<>> /\ st' = st /\ cp' = <<After(cp[1], e)>> /\ ops' = Append(ops, <<2, e>>)
           \/ cp = <<>> /\ cp' = <<Fresh(st.cam)>> /\ st' = st /\ ops' = Append(ops, <<1, E("copy", "", <<>>, 0, 0)>>)
Spec == Init /\ [][Next]_vars
Only(S) == \A j \in DOMAIN ops : ops[j][2].op \in S
\* Resizing scales about the original and sees the same scene, whatever the sequence
SameScene == (Only({"factor", "size", "copy"}) /\ cp = <<>>) =>
  \A i \in 1..2 : /\ st.cam.f[i] * st.orig.imgsz[i] = st.orig.f[i] * st.cam.imgsz[i]
                  /\ st.cam.c[i] * st.orig.imgsz[i] = st.orig.c[i] * st.cam.imgsz[i]
Returns == (ops # <<>> /\ Only({"factor", "size"}) /\ ops[Len(ops)][2].v = <<1, 1>>) => st.cam = st.orig
Restored == (ops # <<>> /\ ops[Len(ops)] = <<1, E("reset", "", <<>>, 0, 0)>>) => [st.cam EXCEPT !.sensorsz = <<>>] = [st.orig EXCEPT !.sensorsz = <<>>]
OriginalKept == st.orig = Cam0
\* The focal length in millimetres does not depend on the image size
SameMM == (Only({"factor", "size"}) /\ ops # <<>>) => InMM(st.cam, st.cam.f) = InMM(Cam0, Cam0.f)
Emit == Len(ops) = N => PrintT(ToJson(ops))
=============================================================================
