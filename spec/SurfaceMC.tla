----------------------------- MODULE SurfaceMC ------------------------------
(* Every sequence of N edits of a small raster.                              *)
EXTENDS Surface, Json, TLC
CONSTANTS N
VARIABLES s, ops
vars == <<s, ops>>
S0 == [n |-> <<3, 2>>, a |-> <<<<1, 2, 3>>, <<7, NAN, 5>>>>, xl |-> <<0, 192>>, yl |-> <<256, 0>>]
Op(op, x, y) == [op |-> op, x |-> x, y |-> y]
\* Limits at fractions k1/8, k2/8 of the current ones
Part(l, k1, k2) == <<l[1] + ((l[2] - l[1]) * k1) \div 8, l[1] + ((l[2] - l[1]) * k2) \div 8>>
Flip(l) == <<l[2], l[1]>>
Edits ==
  {Op("setx", Flip(s.xl), <<>>), Op("sety", Flip(s.yl), <<>>), Op("setx", <<s.xl[1], 2 * s.xl[2] - s.xl[1]>>, <<>>),
   Op("shift", <<16, -48>>, <<5>>), Op("cropz", <<2, 5>>, <<>>),
   Op("crop", Part(s.xl, 3, 8), s.yl), Op("crop", Part(s.xl, 0, 5), Part(s.yl, 1, 3)), Op("crop", Part(Flip(s.xl), 3, 9), Flip(s.yl)),
   Op("data", <<>>, <<>>), Op("rows", [i \in 1..NY(s) |-> NY(s) - i], <<-1>>), Op("cols", <<NX(s) - 1>>, <<1>>),
   Op("cols", IF NX(s) > 2 THEN <<0, 2>> ELSE <<0>>, IF NX(s) > 2 THEN <<2>> ELSE <<1>>)}
Do(o) ==
  CASE o.op = "setx" -> SetX(s, o.x)
    [] o.op = "sety" -> SetY(s, o.x)
    [] o.op = "shift" -> Shift(s, o.x[1], o.x[2], o.y[1])
    [] o.op = "cropz" -> CropZ(s, o.x)
    [] o.op = "crop" -> Crop(s, o.x, o.y)
    [] o.op = "data" -> CropToData(s)
    [] o.op = "rows" -> Take(s, o.x, o.y[1], Seq0(0, NX(s) - 1), 1)
    [] o.op = "cols" -> Take(s, Seq0(0, NY(s) - 1), 1, o.x, o.y[1])
OK(o) == CASE o.op = "data" -> DataRows(s) # {} [] o.op = "crop" -> CropOK(s, o.x, o.y) [] OTHER -> TRUE
Init == s = S0 /\ ops = <<>>
Next == /\ Len(ops) < N
        /\ \E o \in Edits : OK(o) /\ Whole(Do(o)) /\ s' = Do(o) /\ ops' = Append(ops, o)
Spec == Init /\ [][Next]_vars
Shape == Len(s.a) = NY(s) /\ \A r \in DOMAIN s.a : Len(s.a[r]) = NX(s)
Centered == \A c \in 1..NX(s) : Xs(s)[c] > Lower(s.xl) /\ Xs(s)[c] < Upper(s.xl)
\* Values at cell centers are those of the cells
AtCenters == \A r \in 0..NY(s) - 1, c \in 0..NX(s) - 1 :
  /\ Nearest(s, <<CX(s, c), CY(s, r)>>) = At(s, r, c)
  /\ Linear(s, <<CX(s, c), CY(s, r)>>) \in {NAN, 256 * (IF At(s, r, c) = NAN THEN 0 ELSE At(s, r, c))}
\* The mirror image of a raster answers alike
Mirror(t) == [t EXCEPT !.xl = Flip(@), !.a = [r \in DOMAIN @ |-> [c \in DOMAIN @[r] |-> @[r][Len(@[r]) + 1 - c]]]]
Mirrored == \A p \in {<<k1, k2>> : k1 \in {s.xl[1], (s.xl[1] + s.xl[2]) \div 2}, k2 \in {(s.yl[1] + 3 * s.yl[2]) \div 4}} :
  /\ (PosWhole(s.xl, NX(s), p[1]) /\ PosWhole(s.yl, NY(s), p[2]) /\ NAN \notin Vals(s)) => Linear(Mirror(s), p) = Linear(s, p)
  /\ Crop(Mirror(s), Part(s.xl, 3, 8), s.yl) = Mirror(Crop(s, Part(s.xl, 3, 8), s.yl))
\* Cropping is idempotent
Idempotent == LET t == Crop(s, Part(s.xl, 0, 5), s.yl) IN Crop(t, Part(s.xl, 0, 5), s.yl) = t
Emit == Len(ops) = N => PrintT(ToJson(ops))
=============================================================================
