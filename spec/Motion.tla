------------------------------- MODULE Motion -------------------------------
(* Motion of particles (C05), on integers. A particle is <<x, y, z, vx, vy,  *)
(* vz>> with positions in 1/32 and velocities in 1/4 (of a unit of length,   *)
(* and a unit of length per time unit). A time step is t/4 time units.       *)
EXTENDS Integers, Sequences, FiniteSets
\* Displacement (in 1/32) and change of velocity (in 1/4)
Move(v, a, t) == 2 * v * t + a * t * t
Gain(a, t) == a * t
\* Free motion with acceleration a = <<ax, ay, az>>
Free(p, a, t) ==
  <<p[1] + Move(p[4], a[1], t), p[2] + Move(p[5], a[2], t), p[3] + Move(p[6], a[3], t),
    p[4] + Gain(a[1], t), p[5] + Gain(a[2], t), p[6] + Gain(a[3], t)>>
\* Motion tangent to the surface z = s[1] x + s[2] y + s[3] (same height above it)
Tangent(p, a, t, s) ==
  LET dx == Move(p[4], a[1], t)
      dy == Move(p[5], a[2], t)
  IN <<p[1] + dx, p[2] + dy, p[3] + s[1] * dx + s[2] * dy,
       p[4] + Gain(a[1], t), p[5] + Gain(a[2], t), p[6]>>
\* Speed (in 1/4) of velocities with whole speed
Abs(x) == IF x < 0 THEN -x ELSE x
ISqrt(n) == CHOOSE r \in 0..200 : r * r <= n /\ (r + 1) * (r + 1) > n
Speed(p) == ISqrt(p[4] * p[4] + p[5] * p[5])
WholeSpeed(p) == Speed(p) * Speed(p) = p[4] * p[4] + p[5] * p[5]
\* Acceleration from change of speed c[1], turning c[2] (per time unit), and c[3]
\* 4 * (acceleration), as velocities are in 1/4
Polar4(p, c) ==
  LET v == Speed(p)
      ux == IF v = 0 THEN 0 ELSE (4 * c[1] * p[4]) \div v
      uy == IF v = 0 THEN 0 ELSE (4 * c[1] * p[5]) \div v
  IN <<ux - p[5] * c[2], uy + p[4] * c[2], 4 * c[3]>>
\* Velocities (in 1/4) and c such that the acceleration is a whole number
Polar(p, c) == [i \in 1..3 |-> Polar4(p, c)[i] \div 4]
PolarOK(p, c) == WholeSpeed(p) /\ (\A i \in 1..3 : Polar4(p, c)[i] % 4 = 0)
                 /\ (Speed(p) > 0 => (4 * c[1] * p[4]) % Speed(p) = 0 /\ (4 * c[1] * p[5]) % Speed(p) = 0)
Step(kind, p, a, t, s) ==
  CASE kind = "base" -> Free(p, <<0, 0, 0>>, t)
    [] kind = "cartesian" -> Free(p, a, t)
    [] kind = "cylindrical" -> Free(p, Polar(p, a), t)
    [] kind = "tangent" -> Tangent(p, a, t, s)
    [] kind = "tangent_cylindrical" -> Tangent(p, Polar(p, a), t, s)
\* Height of the surface (in 1/32) at whole x, y
Surface(s, x, y) == 32 * (s[1] * x + s[2] * y + s[3])
\* Initial particle without deviations. Direction (cosine, sine) in 1/5.
Start(kind, xy, v, dir, s) ==
  LET vx == IF kind \in {"cylindrical", "tangent_cylindrical"} THEN (4 * v[1] * dir[1]) \div 5 ELSE 4 * v[1]
      vy == IF kind \in {"cylindrical", "tangent_cylindrical"} THEN (4 * v[1] * dir[2]) \div 5 ELSE 4 * v[2]
      vz == IF kind \in {"cartesian", "cylindrical"} THEN 4 * v[3] ELSE 0
      z == IF kind = "base" THEN 0 ELSE Surface(s, xy[1], xy[2])
  IN IF kind = "base" THEN <<32 * xy[1], 32 * xy[2], 0, 0, 0, 0>>
     ELSE <<32 * xy[1], 32 * xy[2], z, vx, vy, vz>>
\* Twice the penalty times the squared deviation
Penalty(d, sigma) == IF sigma = 0 THEN 0 ELSE d * d
=============================================================================
