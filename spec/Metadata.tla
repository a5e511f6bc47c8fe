------------------------------- MODULE Metadata ------------------------------
(* Metadata of images (C23). Tags are a record of what is stored: characters   *)
(* for text, <<n, d>> for ratios, sequences of numbers (empty: absent).        *)
(* What they say is a record of values (empty: unknown).                       *)
EXTENDS Integers, Sequences, FiniteSets
Nul == "NUL"
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digit(c) == CHOOSE d \in 0..9 : Digits[d + 1] = c
RECURSIVE Whole(_, _, _, _), Until(_), Lead(_), Trail(_), Join(_), Pad(_, _)
Whole(s, i, j, acc) == IF i > j THEN acc ELSE Whole(s, i + 1, j, 10 * acc + Digit(s[i]))
\* Text ends at the first null character
Until(s) == IF s = <<>> \/ Head(s) = Nul THEN <<>> ELSE <<Head(s)>> \o Until(Tail(s))
Lead(s) == IF s # <<>> /\ Head(s) = " " THEN Lead(Tail(s)) ELSE s
Trail(s) == IF s # <<>> /\ s[Len(s)] = " " THEN Trail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == Trail(Lead(s))
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))
(* ---- Time: year, month, day, hour, minute, second, microsecond ----         *)
Pad(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE Pad(Append(s, "0"), n)
Micro(s) == LET t == Strip(Until(s)) IN IF t = <<>> THEN 0 ELSE Whole(Pad(t, 6), 1, 6, 0)
Time(time, sub) == LET s == Until(time) IN
  IF \A i \in DOMAIN s : s[i] \in {" ", ":", "0"} THEN <<>>
  ELSE <<Whole(s, 1, 4, 0), Whole(s, 6, 7, 0), Whole(s, 9, 10, 0), Whole(s, 12, 13, 0), Whole(s, 15, 16, 0), Whole(s, 18, 19, 0), Micro(sub)>>
(* ---- Numbers ----                                                           *)
Ratio(r) == IF r = <<>> THEN <<>> ELSE IF r[1] = 0 \/ r[2] = 0 THEN <<>> ELSE r
First(v) == IF v = <<>> THEN <<>> ELSE IF v[1] = 0 THEN <<>> ELSE <<v[1]>>
Size(w, h) == IF First(w) = <<>> \/ First(h) = <<>> THEN <<>> ELSE <<w[1], h[1]>>
(* ---- Sensor size (in 1 / 10 mm) by make and model ----                      *)
Sensors == <<<<"NIKON CORPORATION", "NIKON D2X", 237, 157>>, <<"NIKON CORPORATION", "NIKON D200", 236, 158>>, <<"NIKON CORPORATION", "NIKON D300S", 236, 158>>,
             <<"NIKON", "E8700", 88, 66>>, <<"Canon", "Canon EOS 20D", 225, 150>>, <<"Canon", "Canon EOS 40D", 222, 148>>>>
Sensor(make, model) == LET a == Join(Strip(Until(make))) b == Join(Strip(Until(model))) k == {i \in DOMAIN Sensors : Sensors[i][1] = a /\ Sensors[i][2] = b} IN
  IF k = {} THEN <<>> ELSE LET i == CHOOSE j \in k : TRUE IN <<Sensors[i][3], Sensors[i][4]>>
Says(t) == [size |-> Size(t.w, t.h), time |-> Time(t.time, t.sub), fmm |-> Ratio(t.fmm), exposure |-> Ratio(t.exposure), aperture |-> Ratio(t.aperture),
            iso |-> First(t.iso), make |-> Join(Until(t.make)), model |-> Join(Until(t.model)), sensor |-> Sensor(t.make, t.model)]
(* ---- Images ----                                                            *)
(* Given g: size, f, fmm (ratio), sensor, cmm, time; what metadata m says.      *)
Complete(g) == g.size # <<>> /\ (g.f # <<>> \/ (g.fmm # <<>> /\ g.sensor # <<>>))
Reads(g, form) == (form = "parameters" /\ ~Complete(g)) \/ g.time = <<>>
Else(a, b) == IF a # <<>> THEN a ELSE b
\* Parameters of the camera: size, f, fmm (if not f), sensor
Camera(g, m) == IF Complete(g) THEN [size |-> g.size, f |-> g.f, fmm |-> g.fmm, sensor |-> g.sensor, cmm |-> g.cmm]
  ELSE [size |-> Else(g.size, m.size), f |-> g.f, fmm |-> Else(g.fmm, IF g.f # <<>> THEN <<>> ELSE m.fmm), sensor |-> Else(g.sensor, m.sensor), cmm |-> g.cmm]
Usable(c) == /\ c.size # <<>> /\ (c.f # <<>>) # (c.fmm # <<>>) /\ (c.fmm # <<>> \/ c.cmm # <<>> => c.sensor # <<>>)
\* [n, d] so that n / d is the focal length in pixels
Focal(c, i) == IF c.f # <<>> THEN <<c.f[i], 1>> ELSE <<c.fmm[1] * c.size[i] * 10, c.fmm[2] * c.sensor[i]>>
=============================================================================
