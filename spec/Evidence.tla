------------------------------ MODULE Evidence ------------------------------
(* Image evidence of particles (C06), for images of two values (0 and 1 up   *)
(* to brightness and contrast). Boxes are <<left, top, right, bottom>>.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
W(b) == b[3] - b[1]
Ht(b) == b[4] - b[2]
Pix(img, c, r) == img[r + 1][c + 1]
AddUp(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
Cells(w, h) == (0..w - 1) \X (0..h - 1)
\* Number of ones in a box
Ones(img, b) == AddUp(Cells(W(b), Ht(b)), LAMBDA x : Pix(img, b[1] + x[1], b[2] + x[2]))
\* Median of the surroundings (hp: odd width and height), mirrored at the edges of the box
Mirror(i, n) == LET m == i % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
Median(img, b, c, r, hp) ==
  LET hx == hp[1] \div 2
      hy == hp[2] \div 2
      ones == AddUp((-hx..hx) \X (-hy..hy), LAMBDA d :
                Pix(img, b[1] + Mirror(c + d[1], W(b)), b[2] + Mirror(r + d[2], Ht(b))))
  IN IF 2 * ones > hp[1] * hp[2] THEN 1 ELSE 0
\* Filtered value, in contrasts from the brighter value (no filter) or the median
Value(img, b, c, r, hp) == IF hp[1] = 0 THEN Pix(img, b[1] + c, b[2] + r) - 1
                           ELSE Pix(img, b[1] + c, b[2] + r) - Median(img, b, c, r, hp)
Filtered(img, b, hp) == [x \in Cells(W(b), Ht(b)) |-> Value(img, b, x[1], x[2], hp)]
\* Contrast of the searched region relative to the template once their distributions are matched: G / Q
Q(timg, tb, sb) == W(sb) * Ht(sb) * Ones(timg, tb)
G(timg, tb, simg, sb) == Min2(Ones(simg, sb) * W(tb) * Ht(tb), Q(timg, tb, sb))
\* Sum of squared differences (in squared contrasts) times Q^2, of the window at offset c, r
Sum2(T, S, w, h, c, r, g, q) ==
  LET tt == AddUp(Cells(w, h), LAMBDA x : T[x] * T[x])
      ts == AddUp(Cells(w, h), LAMBDA x : T[x] * S[<<x[1] + c, x[2] + r>>])
      ss == AddUp(Cells(w, h), LAMBDA x : S[<<x[1] + c, x[2] + r>>] * S[<<x[1] + c, x[2] + r>>])
  IN q * q * tt - 2 * g * q * ts + g * g * ss
\* In 1/400 of a squared contrast
Scaled(num, q) == 400 * (num \div (q * q)) + (400 * (num % (q * q))) \div (q * q)
=============================================================================
