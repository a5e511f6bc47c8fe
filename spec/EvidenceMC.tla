----------------------------- MODULE EvidenceMC -----------------------------
(* All small images of two values, moved by a whole number of pixels: the    *)
(* window that moved with the imagery has no difference from the template.   *)
EXTENDS Evidence, Json, TLC
CONSTANTS NX, NY, TX, TY
VARIABLES img, d, hp
vars == <<img, d, hp>>
Images == [1..NY -> [1..NX -> {0, 1}]]
\* Image moved by d (cyclically)
Moved(m, s) == [r \in 1..NY |-> [c \in 1..NX |-> m[((r - 1 - s[2]) % NY) + 1][((c - 1 - s[1]) % NX) + 1]]]
Tpl == <<1, 1, 1 + TX, 1 + TY>>
Full == <<0, 0, NX, NY>>
Init == img \in Images /\ d = <<0, 0>> /\ hp = <<0, 0>> /\ Ones(img, Tpl) \in 1..TX * TY - 1
Next == /\ d = <<0, 0>> /\ hp = <<0, 0>>
        /\ d' \in (-1..NX - TX - 1) \X (-1..NY - TY - 1)
        /\ hp' = hp /\ img' = img
Spec == Init /\ [][Next]_vars
T == Filtered(img, Tpl, hp)
S == Filtered(Moved(img, d), Full, hp)
q == Q(img, Tpl, Full)
g == G(img, Tpl, Moved(img, d), Full)
At(c, r) == Sum2(T, S, TX, TY, c, r, g, q)
NonNegative == \A c \in 0..NX - TX, r \in 0..NY - TY : At(c, r) >= 0
\* Where the brighter value is no rarer in the region than in the template
MovedIsExact == g = q => At(1 + d[1], 1 + d[2]) = 0
OnlyMatches == g = q => \A c \in 0..NX - TX, r \in 0..NY - TY :
  At(c, r) = 0 <=> \A x \in Cells(TX, TY) : T[x] = S[<<x[1] + c, x[2] + r>>]
Emit == (d # <<0, 0>> /\ g = q) => PrintT(ToJson([img |-> img, d |-> d]))
=============================================================================
