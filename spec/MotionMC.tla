------------------------------ MODULE MotionMC ------------------------------
(* Steps of every model from a set of particles: steps compose and reverse,  *)
(* turning is to the left, tangent motion keeps height above the surface.    *)
EXTENDS Motion, Json, TLC
CONSTANTS Steps, Accels, N
VARIABLES kind, p0, p, a, s, ts
vars == <<kind, p0, p, a, s, ts>>
Velocities == {<<12, 16>>, <<-16, 12>>, <<20, 0>>, <<0, -20>>, <<0, 0>>, <<-12, -16>>}
Surfaces == {<<0, 0, 5>>, <<2, -3, 7>>}
Cyl == {"cylindrical", "tangent_cylindrical"}
Init == /\ kind \in {"base", "cartesian", "tangent"} \cup Cyl
        /\ s \in Surfaces
        /\ \E v \in Velocities, vz \in {0, 8} : p0 = <<32 * 3, 32 * (-2), 32 * 4, v[1], v[2], vz>>
        /\ a \in Accels
        /\ (kind \in Cyl => PolarOK(p0, a))
        /\ (kind \in {"base", "cartesian"} \cup {"cylindrical"} => s = <<0, 0, 5>>)
        /\ (kind = "base" => a = <<0, 0, 0>>)
        /\ p = p0 /\ ts = <<>>
Next == /\ Len(ts) < (IF kind \in Cyl THEN 1 ELSE N)
        /\ \E t \in Steps : p' = Step(kind, p, a, t, s) /\ ts' = Append(ts, t)
        /\ UNCHANGED <<kind, p0, a, s>>
Spec == Init /\ [][Next]_vars
Total == IF Len(ts) = 0 THEN 0 ELSE IF Len(ts) = 1 THEN ts[1] ELSE IF Len(ts) = 2 THEN ts[1] + ts[2] ELSE ts[1] + ts[2] + ts[3]
\* With constant acceleration, only the total elapsed time matters
Compose == kind \notin Cyl => p = Step(kind, p0, a, Total, s)
\* Height above the surface is kept
Height(x) == x[3] - s[1] * x[1] - s[2] * x[2]
Keeps == kind \in {"tangent", "tangent_cylindrical"} => Height(p) = Height(p0) /\ p[6] = p0[6]
\* Turning is counterclockwise and does not change speed (to first order)
Turns == kind \in Cyl /\ Len(ts) = 1 => LET q == Polar(p0, a) IN
  /\ p0[4] * q[2] - p0[5] * q[1] = a[2] * ((p0[4] * p0[4] + p0[5] * p0[5]) \div 4)
  /\ p0[4] * q[1] + p0[5] * q[2] = a[1] * Speed(p0)
  /\ (Speed(p0) = 0 => q[1] = 0 /\ q[2] = 0)
Emit == (Len(ts) = (IF kind \in Cyl THEN 1 ELSE N)) => PrintT(ToJson([kind |-> kind, p0 |-> p0, a |-> a, s |-> s, ts |-> ts]))
=============================================================================
