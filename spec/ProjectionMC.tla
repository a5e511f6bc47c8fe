---------------------------- MODULE ProjectionMC -----------------------------
(* Every orientation by angles with sines and cosines in fifths.             *)
EXTENDS Projection, Json, TLC

VARIABLE ang
Fifths == {<<5, 0>>, <<0, 5>>, <<-5, 0>>, <<0, -5>>, <<3, 4>>, <<-4, 3>>, <<-3, -4>>, <<4, -3>>}
Init == ang \in Fifths \X Fifths \X Fifths
Spec == Init /\ [][UNCHANGED ang]_ang
Cam == [pos |-> <<1, -2, 3>>, ang |-> ang, corr |-> <<0, 1>>]
Points == {<<0, 0, 4>>, <<1, 2, 3>>, <<-4, 3, 8>>, <<2, 0, 0>>, <<1, 1, -5>>}
Orthonormal == Mul(R(ang), T(R(ang))) = [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN 15625 ELSE 0]]
\* Right handed: the third row is the product of the others
Handed == LET m == R(ang) IN
  \A i \in 1..3 : LET j == (i % 3) + 1 l == (j % 3) + 1 IN m[1][j] * m[2][l] - m[1][l] * m[2][j] = 125 * m[3][i]
\* Looking along the azimuth and altitude of yaw and pitch, level if not rolled
Looks == LET m == R(ang) IN /\ m[3] = [i \in 1..3 |-> 5 * Direction(ang[1], ang[2])[i]]
                            /\ ang[3] = <<5, 0>> => m[1][3] = 0
RoundTrip == \A c \in Points, d \in {0, 1} : InCamera(Cam, ToWorld(Cam, c, d), d) = c
Emit == PrintT(ToJson(ang))
=============================================================================
