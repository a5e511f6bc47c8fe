----------------------------- MODULE ReadCache ------------------------------
(* Reading (parts of) images and rasters from file through a cache (C07).    *)
(* A file holds blocks of constant value; a view of it has m pixels per      *)
(* block (across, down) and starts at pixel <<ox, oy>>. State: version of the file, and the *)
(* version and number of pixels per block that are kept (0 if none).         *)
EXTENDS Integers, Sequences
NAN == 2000000001
Fresh(view) == [file |-> 1, kept |-> 0, keptm |-> <<0, 0>>, m |-> view.m]
\* Value of a block (missing blocks are read as NaN)
Value(view, version, band, c, r) ==
  IF view.missing = 1 /\ (c + r) % 3 = 1 THEN NAN ELSE version * 1000 + band * 100 + r * 10 + c
\* Pixels of a box <<left, top, right, bottom>> of a version of the file, as rows of bands
Pixels(view, m, version, box) ==
  [r \in 1..box[4] - box[2] |-> [c \in 1..box[3] - box[1] |-> [b \in 1..Len(view.bands) |->
    Value(view, version, view.bands[b], (view.ox + box[1] + c - 1) \div m[1],
          (view.oy + box[2] + r - 1) \div m[2])]]]
Usable(st) == st.kept > 0 /\ st.keptm = st.m
\* Versions that a read may return
Versions(st, cache) ==
  IF ~Usable(st) THEN {st.file} ELSE IF cache = 1 THEN {st.kept} ELSE {st.kept, st.file}
\* State after each operation
AfterRead(st, cache) == IF cache = 1 /\ ~Usable(st) THEN [st EXCEPT !.kept = st.file, !.keptm = st.m] ELSE st
AfterClear(st) == [st EXCEPT !.kept = 0, !.keptm = <<0, 0>>]
AfterResize(st, m) == [st EXCEPT !.m = m]
AfterRewrite(st) == [st EXCEPT !.file = st.file + 1]
After(st, e) ==
  CASE e.op = "read" -> AfterRead(st, e.cache)
    [] e.op = "clear" -> AfterClear(st)
    [] e.op = "resize" -> AfterResize(st, e.m)
    [] e.op = "rewrite" -> AfterRewrite(st)
    [] OTHER -> st
=============================================================================
