------------------------------- MODULE Polar -------------------------------
(* What the library computes from a micropolarizer array: the four pixel    *)
(* families, Stokes vectors, binning, demosaicing, shifting, reshaping,     *)
(* rotating, masking, corrections and demodulation.                          *)
(*                                                                          *)
(* The operators ending in "At" give one output pixel from an operator      *)
(* P(_,_) for the source pixels, so that they apply to grids and to images  *)
(* too large to be written out; those ending in "Src" give the provenance   *)
(* of a pixel (which source pixels it is made of), which is what the        *)
(* geometry is model checked on (MCGeom.tla).                               *)
EXTENDS Grid

(* ---------------- pixel families --------------------------------------- *)
Fam(y, x) == 2 * (y % 2) + (x % 2)                 \* position in the superpixel
Splittable(g) == Even(H(g)) /\ Even(W(g))
SubAt(P(_,_), k, Y, X) == P(2 * Y + k \div 2, 2 * X + (k % 2))
SubIm(g, k) == LET P(y, x) == Px(g, y, x) f(Y, X) == SubAt(P, k, Y, X) IN Mk(H(g) \div 2, W(g) \div 2, f)
Split(g) == [k \in 1..4 |-> SubIm(g, k - 1)]
Merge(s) == LET f(y, x) == Px(s[Fam(y, x) + 1], y \div 2, x \div 2)
            IN  Mk(2 * H(s[1]), 2 * W(s[1]), f)

(* ---------------- Stokes vectors ---------------------------------------- *)
(* ang = <<f0, f45, f_45, f90>>: the family holding each polarizer angle.   *)
(* TheoAt gives 2*I, 2*Q, 2*U (c = 1, 2, 3) from S(k) = the four values.    *)
IsAngleMap(ang) == {ang[i] : i \in 1..4} = 0..3
TheoAt(S(_), ang, c) ==
  CASE c = 1 -> S(0) + S(1) + S(2) + S(3)
    [] c = 2 -> 2 * (S(ang[1]) - S(ang[4]))
    [] OTHER -> 2 * (S(ang[2]) - S(ang[3]))
TheoStokes(s, ang) ==
  [c \in 1..3 |-> LET f(y, x) == LET v(k) == Px(s[k+1], y, x) IN TheoAt(v, ang, c)
                  IN  Mk(H(s[1]), W(s[1]), f)]

(* ---------------- binning ------------------------------------------------ *)
TrimTo(n, b) ==n - (n % b)
\* source pixels of output pixel (y,x) of superpixel-aware binning by b
RebinSrc(y, x, b) ==
  {<<(y - (y % 2)) * b + (y % 2) + 2 * i, (x - (x % 2)) * b + (x % 2) + 2 * j>> : i \in 0..(b-1), j \in 0..(b-1)}
RebinDim(n, b) == TrimTo(n, 2 * b) \div b
RebinAt(P(_,_), b, y, x) ==
  LET r(i) == LET c(j) == P((y - (y % 2)) * b + (y % 2) + 2 * i, (x - (x % 2)) * b + (x % 2) + 2 * j)
              IN  SumRange(c, 0, b - 1)
  IN  SumRange(r, 0, b - 1)
Rebin(g, b) == LET P(y, x) == Px(g, y, x) f(y, x) == RebinAt(P, b, y, x)
               IN  Mk(RebinDim(H(g), b), RebinDim(W(g), b), f)
PlainSrc(y, x, b) == {<<y * b + i, x * b + j>> : i \in 0..(b-1), j \in 0..(b-1)}
PlainDim(n, b) == TrimTo(n, b) \div b
PlainAt(P(_,_), b, y, x) ==
  LET r(i) == LET c(j) == P(b * y + i, b * x + j) IN SumRange(c, 0, b - 1)
  IN  SumRange(r, 0, b - 1)
PlainRebin(g, b) == LET P(y, x) == Px(g, y, x) f(y, x) == PlainAt(P, b, y, x)
                    IN  Mk(PlainDim(H(g), b), PlainDim(W(g), b), f)

(* ---------------- demosaicing (gives 4 * value) --------------------------- *)
NextIn(Y, n) == IF Y + 1 < n THEN Y + 1 ELSE Y       \* last superpixel repeated
AdjacentAt(P(_,_), HS, WS, k, y, x) ==
  LET Y == y \div 2 X == x \div 2
      Y1 == NextIn(Y, HS) X1 == NextIn(X, WS)
      v(a, b) == SubAt(P, k, a, b)
  IN  CASE y % 2 = 0 /\ x % 2 = 0 -> 4 * v(Y, X)
        [] y % 2 = 1 /\ x % 2 = 0 -> 2 * (v(Y, X) + v(Y1, X))
        [] y % 2 = 0 /\ x % 2 = 1 -> 2 * (v(Y, X) + v(Y, X1))
        [] OTHER -> v(Y, X) + v(Y1, X) + v(Y, X1) + v(Y1, X1)
MeanAt(P(_,_), k, y, x) == SubAt(P, k, y \div 2, x \div 2)
DemoAt(P(_,_), HS, WS, mode, k, y, x) ==
  IF mode = "mean" THEN MeanAt(P, k, y, x) ELSE AdjacentAt(P, HS, WS, k, y, x)
DemoModes == {"mean", "adjacent"}
Demosaic(g, mode) ==
  [k \in 1..4 |-> LET P(y, x) == Px(g, y, x)
                      f(y, x) == DemoAt(P, H(g) \div 2, W(g) \div 2, mode, k - 1, y, x)
                  IN  Mk(H(g), W(g), f)]
\* source superpixels of demosaiced pixel (y,x)
DemoSrc(y, x, HS, WS) ==
  LET Y == y \div 2 X == x \div 2 IN
  {<<IF a = 0 THEN Y ELSE NextIn(Y, HS), IF b = 0 THEN X ELSE NextIn(X, WS)>> : a \in 0..(y % 2), b \in 0..(x % 2)}

(* ---------------- shifting ------------------------------------------------ *)
ShiftAt(P(_,_), h, w, dy, dx, fill, y, x) ==
  IF y - dy >= 0 /\ y - dy < h /\ x - dx >= 0 /\ x - dx < w THEN P(y - dy, x - dx) ELSE fill
Shift(g, dy, dx, fill) ==
  LET P(y, x) == Px(g, y, x) f(y, x) == ShiftAt(P, H(g), W(g), dy, dx, fill, y, x)
  IN  Mk(H(g), W(g), f)
\* of superpixels
ShiftMicropol(g, dy, dx, fill) == Shift(g, 2 * dy, 2 * dx, fill)

(* ---------------- polar selections ---------------------------------------- *)
(* integer centres; radii doubled; angles in degrees, multiples of 15        *)
\* sine * 10^6 of 15k degrees
Sin15 == <<0, 258819, 500000, 707107, 866025, 965926, 1000000, 965926, 866025, 707107, 500000, 258819,
           0, -258819, -500000, -707107, -866025, -965926, -1000000, -965926, -866025, -707107, -500000, -258819>>
SinD(a) == Sin15[((a \div 15) % 24) + 1]
CosD(a) == Sin15[((a \div 15 + 6) % 24) + 1]
\* cross product of direction a with (dx,dy): >= 0 iff the point is at a or within the next 180 degrees
Cross(dy, dx, a) ==
  IF a % 45 = 0
  THEN Sgn(CosD(a)) * dy - Sgn(SinD(a)) * dx      \* exact on the diagonals
  ELSE CosD(a) * dy - SinD(a) * dx
\* angle of (dy,dx), anti-clockwise in the array's axes, in [0,360); that of (0,0) is 0
Upper(dy, dx) == dy > 0 \/ (dy = 0 /\ dx >= 0)                         \* angle in [0,180)
AngleGE(dy, dx, a) ==
  IF a <= 0 THEN TRUE
  ELSE IF a >= 360 \/ (dy = 0 /\ dx = 0) THEN FALSE
  ELSE IF a = 180 THEN ~Upper(dy, dx)
  ELSE IF a < 180 THEN ~Upper(dy, dx) \/ Cross(dy, dx, a) >= 0
  ELSE ~Upper(dy, dx) /\ Cross(dy, dx, a) >= 0
AngleIn(dy, dx, lo, hi) == AngleGE(dy, dx, lo) /\ ~AngleGE(dy, dx, hi)
\* r2 = <<2*rmin, 2*rmax>>, outer radius included, inner one not
InAnnulus(dy, dx, r2) ==
  LET d4 == 4 * (dy * dy + dx * dx) IN
  /\ (r2[1] < 0 \/ d4 > r2[1] * r2[1])
  /\ r2[2] >= 0 /\ (r2[2] > 30000 \/ d4 <= r2[2] * r2[2])
\* super: whole superpixels, by halved (truncated) coordinates
InPolar(y, x, c, r2, th, super) ==
  IF super
  THEN LET dy == y \div 2 - TruncDiv(c[1], 2) dx == x \div 2 - TruncDiv(c[2], 2)
       IN  InAnnulus(dy, dx, <<2 * TruncDiv(r2[1], 4), 2 * TruncDiv(r2[2], 4)>>) /\ AngleIn(dy, dx, th[1], th[2])
  ELSE LET dy == y - c[1] dx == x - c[2]
       IN  InAnnulus(dy, dx, r2) /\ AngleIn(dy, dx, th[1], th[2])
\* centre c2 in half pixels
InPolarHalf(y, x, c2, r2, th, super) ==
  IF super THEN InPolar(y, x, <<TruncDiv(c2[1], 2), TruncDiv(c2[2], 2)>>, r2, th, super)
  ELSE LET dy == 2 * y - c2[1] dx == 2 * x - c2[2]
       IN  InAnnulus(dy, dx, <<2 * r2[1], 2 * r2[2]>>) /\ AngleIn(dy, dx, th[1], th[2])
RoiAt(P(_,_), c, r2, th, fill, super, y, x) == IF InPolar(y, x, c, r2, th, super) THEN P(y, x) ELSE fill
RoiPolar(g, c, r2, th, fill, super) ==
  LET P(y, x) == Px(g, y, x) f(y, x) == RoiAt(P, c, r2, th, fill, super, y, x) IN Mk(H(g), W(g), f)

(* occulter masking of an image (r integer): data and demosaiced images by  *)
(* superpixels, Stokes components by superpixel index, or by pixel when the *)
(* image is demosaiced                                                      *)
Everywhere == 100000       \* beyond any pixel, see InAnnulus
MaskData(g, c, r, fill) == RoiPolar(g, c, <<2 * r, Everywhere>>, <<0, 360>>, fill, TRUE)
MaskStokes(g, c, r, fill, demosaiced) ==
  LET cc == IF demosaiced THEN c ELSE <<TruncDiv(c[1], 2), TruncDiv(c[2], 2)>>
      rr == IF demosaiced THEN r ELSE TruncDiv(r, 2)
  IN  RoiPolar(g, cc, <<2 * rr, Everywhere>>, <<0, 360>>, fill, FALSE)

(* ---------------- rotation by quarter turns -------------------------------- *)
\* counter-clockwise (as seen with row 0 on top) by 90 degrees k times: h, w of the source
Rot90At(P(_,_), h, w, k, y, x) ==
  CASE k % 4 = 0 -> P(y, x)
    [] k % 4 = 1 -> P(x, w - 1 - y)
    [] k % 4 = 2 -> P(h - 1 - y, w - 1 - x)
    [] OTHER     -> P(h - 1 - x, y)
Rot90(g, k) ==
  LET P(y, x) == Px(g, y, x) f(y, x) == Rot90At(P, H(g), W(g), k, y, x)
  IN  IF Even(k) THEN Mk(H(g), W(g), f) ELSE Mk(W(g), H(g), f)
FlipY(g) == LET f(y, x) == Px(g, H(g) - 1 - y, x) IN Mk(H(g), W(g), f)
FlipX(g) == LET f(y, x) == Px(g, y, W(g) - 1 - x) IN Mk(H(g), W(g), f)
AntiTranspose(g) == LET f(y, x) == Px(g, H(g) - 1 - x, W(g) - 1 - y) IN Mk(W(g), H(g), f)
BySub(g, F(_)) == LET s == Split(g) IN Merge([i \in 1..4 |-> F(s[i])])
RotMicropol(g, k) == LET f(s) == Rot90(s, k) IN BySub(g, f)
AlignData(g) == BySub(g, AntiTranspose)

(* ---------------- linear resampling ----------------------------------------- *)
(* out position j of m samples the source (n samples) at j*(n-1)/(m-1):       *)
(* value * (mh-1)*(mw-1) is an integer                                        *)
LinLo(j, n, m) == Min2((j * (n - 1)) \div (m - 1), n - 2)
LinWt(j, n, m) == j * (n - 1) - LinLo(j, n, m) * (m - 1)      \* weight of the upper sample, of m-1
CongridAt(P(_,_), h, w, mh, mw, i, j) ==    \* all sizes >= 2; scaled by (mh-1)*(mw-1)
  LET a == LinLo(i, h, mh) u == LinWt(i, h, mh)
      b == LinLo(j, w, mw) v == LinWt(j, w, mw)
  IN  (mh - 1 - u) * ((mw - 1 - v) * P(a, b) + v * P(a, b + 1))
      + u * ((mw - 1 - v) * P(a + 1, b) + v * P(a + 1, b + 1))
Congrid(g, mh, mw) ==
  LET P(y, x) == Px(g, y, x) f(i, j) == CongridAt(P, H(g), W(g), mh, mw, i, j) IN Mk(mh, mw, f)
\* is out (same scale as g) the resampled g, within tol ?
IsCongrid(out, g, mh, mw, tol) ==
  LET P(y, x) == Px(g, y, x) k == (mh - 1) * (mw - 1) IN
  /\ IsShape(out, mh, mw)
  /\ \A i \in 0..(mh-1) : \A j \in 0..(mw-1) :
        Clean(Px(out, i, j)) /\ Abs(k * Px(out, i, j) - CongridAt(P, H(g), W(g), mh, mw, i, j)) <= tol * k
EvenBelow(n) ==n - (n % 2)

(* ---------------- corrections ------------------------------------------------ *)
Dark(g, d) == LET f(a, b) == Max2(a - b, 0) IN MapG2(g, d, f)
\* field-of-view correction, scaled by 4
IfovAt(P(_,_), y, x) == IF y < 2 \/ x < 2 THEN 0 ELSE P(y - 2, x - 2) + P(y - 2, x) + P(y, x - 2) + P(y, x)
Ifov(g) == LET P(y, x) == Px(g, y, x) f(y, x) == IfovAt(P, y, x) IN Mk(H(g), W(g), f)
\* median filter of size 2: window rows y-1..y, columns x-1..x with
\* reflection at the border, third smallest of the four
Third(a, b, c, d) ==
  LET lo1 == Min2(a, b) hi1 == Max2(a, b) lo2 == Min2(c, d) hi2 == Max2(c, d)
  IN  Max2(Max2(lo1, lo2), Min2(hi1, hi2))
MedianAt(P(_,_), y, x) ==
  LET y0 == Max2(y - 1, 0) x0 == Max2(x - 1, 0) IN Third(P(y0, x0), P(y0, x), P(y, x0), P(y, x))
Median2(g) == LET P(y, x) == Px(g, y, x) f(y, x) == MedianAt(P, y, x) IN Mk(H(g), W(g), f)
CleanHot(g, flagged(_,_)) ==
  LET s == Split(g)
      m == [k \in 1..4 |-> Median2(s[k])]
      f(y, x) == IF flagged(y, x) THEN Px(m[Fam(y, x) + 1], y \div 2, x \div 2) ELSE Px(g, y, x)
  IN  Mk(H(g), W(g), f)

(* ---------------- demodulation ------------------------------------------------ *)
\* M(i,j), V(j): i in 1..3, j in 1..4
DotAt(M(_,_), V(_), i) == M(i, 1) * V(1) + M(i, 2) * V(2) + M(i, 3) * V(3) + M(i, 4) * V(4)
Double(g) == LET f(y, x) == Px(g, y \div 2, x \div 2) IN Mk(2 * H(g), 2 * W(g), f)
=============================================================================
