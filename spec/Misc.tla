-------------------------------- MODULE Misc --------------------------------
(* The remaining recorded operations: derived polarization parameters,       *)
(* refusals, lines, radial filter, angles, errors, resampling, rotation by   *)
(* any angle, files and folders, calibration.  MiscFails(e) is the set of    *)
(* clauses the recorded event violates.                                      *)
EXTENDS Pix

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Isqrt(n) ==        \* floor of the square root, 0 <= n < 2^31
  LET RECURSIVE go(_, _)
      go(lo, hi) == IF lo = hi THEN lo
                    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN go(m, hi) ELSE go(lo, m - 1)
  IN  go(0, 46340)
\* v = round(sqrt(x)) up to one unit
SqrtIs(v, x) == Clean(v) /\ v >= 0 /\ v < 46339 /\ (v + 1) * (v + 1) >= x /\ (v = 0 \/ (v - 1) * (v - 1) <= x)

(* ---- C01: pB, DoLP, AoLP.  row = <<src, 100 pB, 10^4 DoLP, 10^4 cos 2AoLP,    *)
(* 10^4 sin 2AoLP, AoLP in millidegrees>>, src = <<2I, 2Q, 2U>> or the four pixels *)
DerivedFails(ang, r) ==
  LET px == r[1]
      pv(k) == px[k + 1]
      sv(n) == IF Len(px) = 4 THEN TheoAt(pv, ang, n) ELSE px[n]
      i2 == sv(1) q2 == sv(2) u2 == sv(3) p == r[2] d == r[3] c == r[4] s == r[5] a == r[6]
      x == 2500 * (q2 * q2 + u2 * u2)
      ps == Isqrt(x)
  IN
  IF ~SqrtIs(p, x) THEN {"pB"} ELSE
  (IF i2 = 0 THEN Chk(d = 0, "DoLP-zero-I")
   ELSE Chk(Clean(d) /\ Abs(d) <= (200 * (ps + 1)) \div Abs(i2) + 300 /\ Abs(d * i2 - 200 * ps) <= Abs(i2) + 300, "DoLP"))
  \cup Chk(Clean(a) /\ -90000 <= a /\ a <= 90000, "AoLP-range")
  \cup (IF q2 = 0 /\ u2 = 0 THEN {}
        ELSE Chk(Clean(c) /\ Clean(s) /\ Abs(c) <= 10000 /\ Abs(s) <= 10000
                 /\ Abs(c * ps - 500000 * q2) <= ps + 15000 /\ Abs(s * ps - 500000 * u2) <= ps + 15000, "AoLP"))

(* ---- C24: lines ------------------------------------------------------------ *)
LineFails(e) ==
  LET dy == e.to[1] - e.from[1] dx == e.to[2] - e.from[2]
      n == Max2(Abs(dy), Abs(dx))
      m == Len(e.ys)
      alongx == Abs(dx) >= Abs(dy)
  IN
  IF Len(e.xs) # m \/ Len(e.vals) # m THEN {"lengths"} ELSE
  Chk(m = n + 1, "number-of-samples")
  \cup Chk(\A i \in 1..m : e.ys[i] \in 0..(e.h-1) /\ e.xs[i] \in 0..(e.w-1), "outside")
  \cup Chk(m > 0 /\ e.ys[1] = e.from[1] /\ e.xs[1] = e.from[2], "start")
  \cup Chk(\A i \in 1..m :
       (alongx => e.xs[i] = e.from[2] + (i - 1) * Sgn(dx)) /\ (Abs(dy) >= Abs(dx) => e.ys[i] = e.from[1] + (i - 1) * Sgn(dy)), "advance")
  \cup Chk(\A i \in 1..m :
       /\ Abs(n * (e.ys[i] - e.from[1]) - (i - 1) * dy) <= n
       /\ Abs(n * (e.xs[i] - e.from[2]) - (i - 1) * dx) <= n, "off-line")
  \cup Chk(\A i \in 1..m : e.vals[i] = Gen(e.src[1], e.ys[i], e.xs[i]), "values")

\* from a centre along 0 / 90 / 180 / 270 degrees: right, up, left, down
\* (r = <<inner, outer>>, outer < 0: to the edge; slack: the sine of 180 degrees is not
\* exactly 0, and coordinates are truncated)
PolarLineFails(e) ==
  LET dy == CASE e.theta = 90 -> -1 [] e.theta = 270 -> 1 [] OTHER -> 0
      dx == CASE e.theta = 0 -> 1 [] e.theta = 180 -> -1 [] OTHER -> 0
      m == Len(e.ys)
      alongx == dx # 0
      maj(i) == IF alongx THEN (e.xs[i] - e.c[2]) * dx ELSE (e.ys[i] - e.c[1]) * dy
      mnr(i) == IF alongx THEN e.ys[i] - e.c[1] ELSE e.xs[i] - e.c[2]
      edge == CASE e.theta = 0 -> e.w - 1 - e.c[2] [] e.theta = 180 -> e.c[2]
                [] e.theta = 90 -> e.c[1] [] OTHER -> e.h - 1 - e.c[1]
      far == IF e.r[2] < 0 THEN edge ELSE Min2(edge, e.r[2])
  IN
  IF Len(e.xs) # m \/ Len(e.vals) # m \/ m = 0 THEN {"lengths"} ELSE
  Chk(\A i \in 1..m : e.ys[i] \in 0..(e.h-1) /\ e.xs[i] \in 0..(e.w-1), "outside")
  \cup Chk(maj(1) >= e.r[1] - 1 /\ maj(1) <= e.r[1] + 1, "start")
  \cup Chk(\A i \in 1..m : maj(i) = maj(1) + i - 1, "advance")
  \cup Chk(\A i \in 1..m : Abs(mnr(i)) <= e.slack, "off-line")
  \cup Chk(maj(m) >= far - 2, "too-short")
  \cup Chk(e.r[2] < 0 \/ maj(m) <= e.r[2] + 1, "beyond-radius")
  \cup Chk(Clean(e.density) /\ Abs(e.density * m - 1000 * m) <= 4000, "density")
  \cup Chk(\A i \in 1..m : e.vals[i] = Gen(e.src[1], e.ys[i], e.xs[i]), "values")

\* from a centre in any direction: e.dir = 1000 * <<sin, cos>>, counter-clockwise from the row
ObliqueFails(e) ==
  LET m == Len(e.ys)
      dy(i) == e.ys[i] - e.c[1]
      dx(i) == e.xs[i] - e.c[2]
      d2(i) == dy(i) * dy(i) + dx(i) * dx(i)
      sq(v) == Max2(v, 0) * Max2(v, 0)
      border(i) == e.ys[i] <= 2 \/ e.ys[i] >= e.h - 3 \/ e.xs[i] <= 2 \/ e.xs[i] >= e.w - 3
  IN
  IF Len(e.xs) # m \/ Len(e.vals) # m \/ m = 0 THEN {"lengths"} ELSE
  Chk(\A i \in 1..m : e.ys[i] \in 0..(e.h-1) /\ e.xs[i] \in 0..(e.w-1), "outside")
  \cup Chk(d2(1) >= sq(e.r[1] - 2) /\ d2(1) <= sq(e.r[1] + 3), "start")
  \cup Chk(\A i \in 1..(m - 1) : LET a == Abs(e.ys[i + 1] - e.ys[i]) b == Abs(e.xs[i + 1] - e.xs[i])
                                IN  (a = 1 /\ b \in 0..1) \/ (b = 1 /\ a \in 0..1), "advance")
  \cup Chk(\A i \in 1..m : Abs(dy(i) * e.dir[2] + dx(i) * e.dir[1]) <= 3000, "off-line")
  \cup Chk(\A i \in 1..m : dx(i) * e.dir[2] - dy(i) * e.dir[1] >= -2000, "backwards")
  \cup Chk(border(m) \/ (e.r[2] >= 0 /\ d2(m) >= sq(e.r[2] - 4)), "too-short")
  \cup Chk(e.r[2] < 0 \/ d2(m) <= sq(e.r[2] + 4), "beyond-radius")
  \cup Chk(\A i \in 1..m : e.vals[i] = Gen(e.src[1], e.ys[i], e.xs[i]), "values")
  \cup Chk(Clean(e.density) /\ LET l2 == (e.ys[m] - e.ys[1]) * (e.ys[m] - e.ys[1]) + (e.xs[m] - e.xs[1]) * (e.xs[m] - e.xs[1])
            IN  Abs(e.density * m - 50 * Isqrt(400 * l2)) <= 6100, "density")

(* ---- C25: radial filter; out = 1000 * value --------------------------------- *)
NrgfFails(e) ==
  LET g == e.src[1].g
      h == H(g) w == W(g)
      D2(y, x) == (y - e.c[1]) * (y - e.c[1]) + (x - e.c[2]) * (x - e.c[2])
      far == {D2(y, x) : y \in {0, h - 1}, x \in {0, w - 1}}
      rmax == Isqrt(CHOOSE d \in far : \A d2 \in far : d2 <= d)
      rings == {k \in 0..(h + w) : e.rmin + k * e.step < rmax}
      inring(k, y, x) == LET r == e.rmin + k * e.step IN D2(y, x) > r * r /\ D2(y, x) <= (r + e.step) * (r + e.step)
      om(y, x) == AngleIn(y - e.c[1], x - e.c[2], e.mphi[1], e.mphi[2])
      tot(k, p) == LET row(y) == LET c(x) == IF inring(k, y, x) /\ om(y, x)
                                             THEN IF p = 0 THEN 1 ELSE Pow(Px(g, y, x), p) ELSE 0
                                 IN  SumRange(c, 0, w - 1)
                   IN  SumRange(row, 0, h - 1)
      stat == TLCEval([k \in rings |-> <<tot(k, 0), tot(k, 1), tot(k, 2)>>])
      sig == TLCEval([k \in rings |-> Isqrt(2500 * (stat[k][1] * stat[k][3] - stat[k][2] * stat[k][2]))])
      ok(y, x) ==
        LET v == Px(e.out[1], y, x)
            ks == {k \in rings : inring(k, y, x)}
        IN  IF ks = {} \/ ~AngleIn(y - e.c[1], x - e.c[2], e.ophi[1], e.ophi[2]) THEN v = 0
            ELSE LET k == CHOOSE k \in ks : TRUE
                     dev == Px(g, y, x) * stat[k][1] - stat[k][2]
                 IN  IF sig[k] = 0 THEN v = 0
                     ELSE Clean(v) /\ Abs(v) < 40000 /\ Abs(v * sig[k] - 50000 * dev) <= sig[k] + Abs(v) + 10
  IN
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF ~IsShape(e.out[1], h, w) THEN {"shape"}
  ELSE Chk(\A y \in 0..(h-1) : \A x \in 0..(w-1) : ok(y, x), "pixels")

(* ---- C26: angle normalisation ------------------------------------------------ *)
\* half = half turn, at the scale of the angles; tol: rounding of the encoding per half turn
AnglesFails(e) ==
  LET n == Len(e.in) IN
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF Len(e.out) # n \/ e.oshape # e.ishape THEN {"shape"}
  ELSE Chk(\A i \in 1..n : Clean(e.out[i]) /\ 2 * e.out[i] > -e.half - e.tol /\ 2 * e.out[i] <= e.half + e.tol, "range")
       \cup Chk(\A i \in 1..n : Clean(e.out[i]) =>
              LET d == e.in[i] - e.out[i]
                  k == (Abs(d) + e.half \div 2) \div e.half
              IN  Abs(Abs(d) - k * e.half) <= e.tol * (k + 2), "half-turns")
       \cup Chk(e.after = e.in, "input-modified")

(* ---- C28: propagated errors ---------------------------------------------------- *)
\* src 1..12 matrix, 13 pixel errors; out = 100 * sigma
ErrStokesFails(e) ==
  LET h == SrcH(e, 1) w == SrcW(e, 1)
      x(k, y, X) == LET t(j) == LET p(a, b) == SrcAt(e, 13, a, b)
                                    m == SrcAt(e, 4 * (k - 1) + j, y, X) * SubAt(p, j - 1, y, X)
                                IN  m * m
                    IN  SumRange(t, 1, 4)
  IN
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF ~Stack(e.out, 3, h, w) THEN {"shape"}
  ELSE Chk(\A k \in 1..3 : \A y \in 0..(h-1) : \A X \in 0..(w-1) : SqrtIs(Px(e.out[k], y, X), 10000 * x(k, y, X)), "sigma-S")
\* src 1..3 I,Q,U; 4..6 their errors; out = 1000 * sigma of pB, DoLP, AoLP
ErrParsFails(e) ==
  LET h == SrcH(e, 1) w == SrcW(e, 1)
      s(i, y, x) == SrcAt(e, i, y, x)
      sq(n) == n * n
      P2(y, x) == sq(s(2, y, x)) + sq(s(3, y, x))
      A(y, x) == sq(s(2, y, x) * s(5, y, x)) + sq(s(3, y, x) * s(6, y, x))     \* Q2sQ2 + U2sU2
      B(y, x) == sq(s(2, y, x) * s(6, y, x)) + sq(s(3, y, x) * s(5, y, x))
      pb(y, x) == (1000000 * A(y, x)) \div P2(y, x)
      I2(y, x) == sq(s(1, y, x))
      dolp(y, x) == 100 * ((10000 * (I2(y, x) * A(y, x) + sq(P2(y, x) * s(4, y, x)))) \div (I2(y, x) * I2(y, x) * P2(y, x)))
      aolp(y, x) == (1000000 * B(y, x)) \div (4 * sq(P2(y, x)))
      near(v, t, slack) == Clean(v) /\ v >= 0 /\ v < 46000 /\ sq(v + 1) >= t /\ (v = 0 \/ sq(v - 1) <= t + slack)
      all(k, f(_, _), slack) == \A y \in 0..(h-1) : \A x \in 0..(w-1) : near(Px(e.out[k], y, x), f(y, x), slack)
  IN
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF ~Stack(e.out, 3, h, w) THEN {"shape"}
  ELSE Chk(all(1, pb, 1), "sigma-pB") \cup Chk(all(2, dolp, 100), "sigma-DoLP") \cup Chk(all(3, aolp, 1), "sigma-AoLP")

(* ---- C22: resampling -------------------------------------------------------------- *)
\* one plane, source and result at the same scale
CongridFails(e) ==
  LET P(y, x) == SrcAt(e, 1, y, x)
      h == SrcH(e, 1) w == SrcW(e, 1)
      k == (e.mh - 1) * (e.mw - 1)
      ok(i, j, v) == Clean(v) /\ Abs(v) < 400000 /\ Abs(k * v - CongridAt(P, h, w, e.mh, e.mw, i, j)) <= k
  IN
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF e.oh # e.mh \/ e.ow # e.mw \/ e.on # 1 THEN {"shape"}
  ELSE IF Has(e, "smp") THEN Chk(\A i \in 1..Len(e.smp) : ok(e.smp[i][2], e.smp[i][3], e.smp[i][4]), "pixels")
  ELSE IF ~IsShape(e.out[1], e.mh, e.mw) THEN {"shape"}
  ELSE Chk(\A i \in 0..(e.mh-1) : \A j \in 0..(e.mw-1) : ok(i, j, Px(e.out[1], i, j)), "pixels")
\* a micropolarizer image: the four families of src 1 (asked for size ny x nx)
MCongridFails(e) ==
  LET h == SrcH(e, 1) w == SrcW(e, 1)
      ny == EvenBelow(e.ny) nx == EvenBelow(e.nx) my == ny \div 2 mx == nx \div 2
      k == (my - 1) * (mx - 1)
      ok(y, x, v) == LET P(a, b) == SrcAt(e, 1, a, b) S(a, b) == SubAt(P, Fam(y, x), a, b)
                     IN  Clean(v) /\ Abs(v) < 400000
                         /\ Abs(k * v - CongridAt(S, h \div 2, w \div 2, my, mx, y \div 2, x \div 2)) <= k
  IN
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF e.oh # ny \/ e.ow # nx \/ e.on # 1 THEN {"shape"}
  ELSE IF Has(e, "smp") THEN Chk(\A i \in 1..Len(e.smp) : ok(e.smp[i][2], e.smp[i][3], e.smp[i][4]), "pixels")
  ELSE IF ~IsShape(e.out[1], ny, nx) THEN {"shape"}
  ELSE Chk(\A y \in 0..(ny-1) : \A x \in 0..(nx-1) : ok(y, x, Px(e.out[1], y, x)), "pixels")

(* ---- C23: rotation by any multiple of 15 degrees ------------------------------------ *)
(* the source image is coded: pixel (y,x) = 4 * (1 + superpixel number) + family; nearest   *)
(* neighbour: the source superpixel is within one pixel of the rotated position             *)
RotAnyFails(e) ==
  LET hs == e.h \div 2 ws == e.w \div 2
      \* any angle of rational sine and cosine, twice the angle of the integer vector e.tri
      tm == e.tri[1] tn == e.tri[2] t2 == tm * tm + tn * tn
      c == IF Has(e, "tri") THEN (1000000 * (tm * tm - tn * tn)) \div t2 ELSE CosD(e.deg % 360)
      s == IF Has(e, "tri") THEN (2000000 * tm * tn) \div t2 ELSE SinD(e.deg % 360)
      V(Y, X, f) == Px(e.out[1], 2 * Y + f \div 2, 2 * X + (f % 2))
      id(Y, X) == V(Y, X, 0) \div 4 - 1
      \* doubled offsets from the centre, and where they come from (x 10^6 / 10^4)
      oy(Y) == 2 * Y + 1 - hs
      ox(X) == 2 * X + 1 - ws
      sx(Y, X) == (c * ox(X) - s * oy(Y)) \div 100      \* 2 * 10^4 * source offset
      sy(Y, X) == (s * ox(X) + c * oy(Y)) \div 100
      in(Y, X, t) == Abs(sx(Y, X)) <= 10000 * ws + t /\ Abs(sy(Y, X)) <= 10000 * hs + t
      one(Y, X) == \A f \in 0..3 : Clean(V(Y, X, f))
                   /\ V(Y, X, f) = (IF V(Y, X, 0) = 0 THEN 0 ELSE V(Y, X, 0) + f)
                   /\ V(Y, X, 0) % 4 = 0 /\ V(Y, X, 0) >= 0 /\ id(Y, X) < hs * ws
      near(Y, X) == LET n == id(Y, X) fy == n \div ws fx == n % ws IN
                    /\ Abs(sx(Y, X) - 10000 * (2 * fx + 1 - ws)) <= 12000
                    /\ Abs(sy(Y, X) - 10000 * (2 * fy + 1 - hs)) <= 12000
  IN
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF ~IsShape(e.out[1], e.h, e.w) THEN {"shape"}
  ELSE IF ~\A Y \in 0..(hs-1) : \A X \in 0..(ws-1) : one(Y, X) THEN {"mixed"}
  ELSE Chk(\A Y \in 0..(hs-1) : \A X \in 0..(ws-1) : V(Y, X, 0) = 0 \/ near(Y, X), "moved")
       \cup Chk(\A Y \in 0..(hs-1) : \A X \in 0..(ws-1) : V(Y, X, 0) # 0 \/ ~in(Y, X, -20000), "lost")
       \cup Chk(\A Y \in 0..(hs-1) : \A X \in 0..(ws-1) : V(Y, X, 0) = 0 \/ in(Y, X, 20000), "invented")

\* any angle: every superpixel of the coded image comes whole from one source superpixel
OneSourceFails(e) ==
  LET hs == e.h \div 2 ws == e.w \div 2
      V(Y, X, f) == Px(e.out[1], 2 * Y + f \div 2, 2 * X + (f % 2))
  IN  IF ~IsShape(e.out[1], e.h, e.w) THEN {"shape"}
      ELSE Chk(\A Y \in 0..(hs-1) : \A X \in 0..(ws-1) :
             LET v == V(Y, X, 0) IN
             \/ \A f \in 0..3 : V(Y, X, f) = 0
             \/ v % 4 = 0 /\ v > 0 /\ v <= 4 * hs * ws /\ \A f \in 0..3 : V(Y, X, f) = v + f, "mixed")
\* Stokes vector of pixels recorded with rounding
StokesNearFails(e) ==
  LET P(a, b) == SrcAt(e, 1, a, b) hs == SrcH(e, 1) \div 2 ws == SrcW(e, 1) \div 2 IN
  IF ~Stack(e.out, 3, hs, ws) THEN {"shape"}
  ELSE Chk(\A k \in 1..3 : \A y \in 0..(hs-1) : \A x \in 0..(ws-1) :
         LET v(f) == SubAt(P, f, y, x) IN Near(Px(e.out[k], y, x), TheoAt(v, e.ang, k), e.tol), "stokes")

(* ---- C03 ... : refusals -------------------------------------------------------------- *)
RefusedFails(e) == Chk(e.st = "err", "not-refused")

(* ---- C05 ---- *)
TrimFails(e) == IF e.st # "ok" THEN {"unexpected-error"}
                ELSE Chk(e.out = <<TrimTo(e.h, e.b), TrimTo(e.w, e.b)>>, "trim")
(* ---- C10 ---- *)
SizeFails(e) == Chk(e.h = e.sh /\ e.w = e.sw, "height-width") \cup Chk(e.n1 = e.sw /\ e.n2 = e.sh, "size-cards")
(* ---- equal values, cards, digests (as sequences or sets) ---- *)
SameFails(e) == Chk(ToString(e.got) = ToString(e.want), e.what)      \* as text: of any type
TextSet(s) == {ToString(s[i]) : i \in 1..Len(s)}
SetFails(e) == Chk(TextSet(e.got) = TextSet(e.want), e.what)
SubsetFails(e) == Chk(TextSet(e.want) \subseteq TextSet(e.got), e.what)
\* two sets of results at the same scale, equal up to rounding
NearFails(e) == Chk(NearS(e.got, e.want, e.tol), e.what)

(* ---- files: a directory tree before and after an operation ----------------------------- *)
\* before, after: <<path, content digest>>; may: paths it may write; must: paths it has to
\* have written; gone: paths it has to have removed
TreeFails(e) ==
  LET b == SeqSet(e.before) a == SeqSet(e.after)
      pb == {p[1] : p \in b} pa == {p[1] : p \in a}
      may == SeqSet(e.may) must == SeqSet(e.must) gone == SeqSet(e.gone)
  IN  Chk(\A p \in b : p[1] \in may \cup gone \/ p \in a, "other-file-changed")
      \cup Chk(\A p \in pa : p \in pb \/ p \in may, "unexpected-file")
      \cup Chk(must \subseteq pa, "file-missing")
      \cup Chk(gone \cap pa = {}, "file-not-removed")

(* ---- C12: observation times: <<>> or <<y,mo,d,h,mi,s>> ----------------------------------- *)
RECURSIVE LexLE(_, _)
LexLE(a, b) == IF a = <<>> THEN TRUE
               ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLE(Tail(a), Tail(b))
TimesFails(e) ==
  LET ts == {t \in SeqSet(e.times) : t # <<>>} n == Len(e.times) IN
  Chk(IF n > 1 THEN e.n = n ELSE e.n = 0, "number-of-files")
  \cup (IF n = 1 \/ ts = {} THEN Chk(e.first = <<>> /\ e.last = <<>>, "times-without-times")
        ELSE Chk(e.first \in ts /\ \A t \in ts : LexLE(e.first, t), "earliest")
             \cup Chk(e.last \in ts /\ \A t \in ts : LexLE(t, e.last), "latest"))

(* ---- C16: packed 12-bit pixels: rows <<b0, b1, b2, p0, p1>> per file ---------------------- *)
Unpack(t) == <<16 * t[1] + t[2] \div 16, 16 * t[3] + (t[2] % 16)>>
DecodeFails(e) ==
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF e.oh # 1952 \/ e.ow # 1952 THEN {"shape"}
  ELSE Chk(\A i \in 1..Len(e.rows) :
         LET r == e.rows[i]        \* r = << <<b0,b1,b2>> per file ..., <<n*p0, n*p1>> >>
             n == Len(r) - 1
             s0(k) == Unpack(r[k])[1]
             s1(k) == Unpack(r[k])[2]
         IN  r[n + 1] = <<SumRange(s0, 1, n), SumRange(s1, 1, n)>>, "pixels")

(* ---- C19: folders ------------------------------------------------------------------------- *)
\* files: <<first digit, second digit, index in src>> of the files with two digits
FolderFails(e) ==
  LET ix(i, j) == {f \in SeqSet(e.files) : f[1] = i /\ f[2] = j}
      complete == \A i \in 0..2 : \A j \in 0..(e.cols - 1) : ix(i, j) # {}
  IN
  IF ~complete THEN Chk(e.st = "err", "not-refused")
  ELSE IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF Len(e.out) # 3 * e.cols THEN {"shape"}
  ELSE Chk(\A i \in 0..2 : \A j \in 0..(e.cols - 1) :
         LET f == CHOOSE f \in ix(i, j) : TRUE IN EqG(e.out[e.cols * i + j + 1], e.src[f[3]].g), "element")
\* phases (degrees) of families 0..3 -> map <<f0, f45, f_45, f90>>
PhaseMapFails(e) ==
  LET dist(p, a) == LET d == (p - a) % 180 IN Min2(d, 180 - d)
      want(a) == CHOOSE f \in 0..3 : \A g \in 0..3 : dist(e.phases[f+1], a) <= dist(e.phases[g+1], a)
  IN  IF e.st # "ok" THEN {"unexpected-error"}
      ELSE Chk(e.map = <<want(0), want(45), want(-45), want(90)>>, "angle-map")

(* ---- C20, C21: calibration ------------------------------------------------------------------ *)
\* sine * 10^4 of 0..90 degrees
Sin90 == <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419, 2588, 2756, 2924, 3090,
          3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848, 5000, 5150, 5299, 5446, 5592, 5736, 5878, 6018,
          6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071, 7193, 7314, 7431, 7547, 7660, 7771, 7880, 7986, 8090, 8192, 8290,
          8387, 8480, 8572, 8660, 8746, 8829, 8910, 8988, 9063, 9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613, 9659,
          9703, 9744, 9781, 9816, 9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998, 10000>>
Sin1(a) == LET k == a % 180 v == Sin90[(IF k <= 90 THEN k ELSE 180 - k) + 1] IN IF a % 360 < 180 THEN v ELSE -v
Cos1(a) == Sin1(a + 90)
(* e.t, e.eff (thousandths), e.phi (degrees): grids of the true values;      *)
(* e.prev: the expected angles of the four families; e.guess = <<t, eff>> initial guesses     *)
(* (thousandths); e.occ = <<y, x, r>> or <<>>, already divided by the binning; e.dead: grid   *)
(* of dead pixels (0/1).  Results: e.ot, e.oe (x 10^4), e.op (degrees x 100), e.flag (x 1),   *)
(* e.m 12 grids (x 1000), half size                                                          *)
CalibFails(e) ==
  LET h == H(e.t) w == W(e.t) hs == h \div 2 ws == w \div 2
      touched(Y, X) == e.occ # <<>> /\
          LET R == e.occ[3] \div 2 dy == Y - e.occ[1] \div 2 dx == X - e.occ[2] \div 2 IN dy * dy + dx * dx <= R * R
      deadsp(Y, X) == \E f \in 0..3 : Px(e.dead, 2 * Y + f \div 2, 2 * X + (f % 2)) = 1
      fallback(Y, X) == touched(Y, X) \/ deadsp(Y, X)
      tt(y, x) == IF fallback(y \div 2, x \div 2) THEN e.guess[1] ELSE Px(e.t, y, x)
      ee(y, x) == IF fallback(y \div 2, x \div 2) THEN e.guess[2] ELSE Px(e.eff, y, x)
      pp(y, x) == IF fallback(y \div 2, x \div 2) THEN e.prev[Fam(y, x) + 1] ELSE Px(e.phi, y, x)
      \* measured zeros (e.zs: their superpixels) have a fit as well, of which nothing more is known
      loose == IF Has(e, "zs") THEN {e.zs[i] : i \in 1..Len(e.zs)} ELSE {}
      all(F(_, _)) == \A y \in 0..(h-1) : \A x \in 0..(w-1) : <<y \div 2, x \div 2>> \in loose \/ F(y, x)
      sup(F(_, _)) == \A Y \in 0..(hs-1) : \A X \in 0..(ws-1) : F(Y, X)
      okt(y, x) == Near(Px(e.ot, y, x), 10 * tt(y, x), e.tol)
      oke(y, x) == Near(Px(e.oe, y, x), 10 * ee(y, x), e.tol)
      okp(y, x) == Near(Px(e.opp, y, x), 100 * pp(y, x), e.tol)
      okf(Y, X) == Px(e.flag, Y, X) = (IF fallback(Y, X) THEN 0 ELSE 1)
      \* modulation matrix (x 1000) of superpixel (Y,X), rows = pixels
      Wm(Y, X, f, c) ==
        LET y == 2 * Y + f \div 2 x == 2 * X + (f % 2)
            t == IF fallback(Y, X) THEN 1000 ELSE Px(e.t, y, x)
            ef == IF fallback(Y, X) THEN 1000 ELSE Px(e.eff, y, x)
            a == IF fallback(Y, X) THEN e.prev[f + 1] ELSE Px(e.phi, y, x)
        IN  CASE c = 1 -> t \div 2
              [] c = 2 -> (((t * ef) \div 1000) * Cos1(2 * a)) \div 20000
              [] OTHER -> (((t * ef) \div 1000) * Sin1(2 * a)) \div 20000
      M(Y, X, c, f) == Px(e.m[4 * (c - 1) + f + 1], Y, X)
      \* M W = identity, W M symmetric: M is the pseudo-inverse of W
      okm(Y, X) ==
        /\ \A c \in 1..3, f \in 0..3 : Clean(M(Y, X, c, f)) /\ Abs(M(Y, X, c, f)) < 110000
        /\ \A c \in 1..3, d \in 1..3 :
             LET p(f) == M(Y, X, c, f) * Wm(Y, X, f, d)
             IN  Abs(SumRange(p, 0, 3) - (IF c = d THEN 1000000 ELSE 0)) <= e.mtol
        /\ \A f \in 0..3, g \in 0..3 :
             LET p(c) == Wm(Y, X, f, c) * M(Y, X, c, g)
                 q(c) == Wm(Y, X, g, c) * M(Y, X, c, f)
             IN  Abs(SumRange(p, 1, 3) - SumRange(q, 1, 3)) <= e.mtol
      okn(Y, X) == <<Y, X>> \in loose \/ okm(Y, X)
  IN
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF ~(IsShape(e.ot, h, w) /\ IsShape(e.oe, h, w) /\ IsShape(e.opp, h, w) /\ IsShape(e.flag, hs, ws)
            /\ Stack(e.m, 12, hs, ws)) THEN {"shape"}
  ELSE Chk(all(okt), "throughput") \cup Chk(all(oke), "efficiency") \cup Chk(all(okp), "angle")
       \cup Chk(sup(okf), "flag") \cup Chk(sup(okn), "matrix")
\* pixels with the same true values (class number) have the same results: cls grid, out list of grids
ClassFails(e) ==
  LET h == H(e.cls) w == W(e.cls)
      rep(n) == CHOOSE p \in (0..(h-1)) \X (0..(w-1)) : Px(e.cls, p[1], p[2]) = n
      cl == {Px(e.cls, y, x) : y \in 0..(h-1), x \in 0..(w-1)}
      at == TLCEval([n \in cl |-> rep(n)])
  IN  Chk(\A k \in 1..Len(e.out) : IsShape(e.out[k], h, w) /\
            \A y \in 0..(h-1) : \A x \in 0..(w-1) :
              LET p == at[Px(e.cls, y, x)] v == Px(e.out[k], y, x) u == Px(e.out[k], p[1], p[2])
              IN  Near(v, u, 2 + (Abs(u) \div 500)), "position")

(* ---- C36: histograms ------------------------------------------------------------------------- *)
\* bins are half open, the last one closed; total: one row, fams: four rows if split
InBin(v, edges, k) == edges[k] <= v /\ (v < edges[k + 1] \/ (k = Len(edges) - 1 /\ v = edges[k + 1]))
HistRow(g, edges, Q(_, _)) ==
  [k \in 1..(Len(edges) - 1) |-> Cardinality({p \in (0..(H(g)-1)) \X (0..(W(g)-1)) : Q(p[1], p[2]) /\ InBin(Px(g, p[1], p[2]), edges, k)})]
HistAll(g, edges) == LET Q(y, x) == TRUE IN HistRow(g, edges, Q)
HistFam(g, edges, i) == LET Q(y, x) == Fam(y, x) = i IN HistRow(g, edges, Q)
HistFails(e) ==
  Chk(e.total = <<HistAll(e.v, e.edges)>>, "histogram")
  \cup Chk(e.fams = IF e.split = 1 THEN [i \in 1..4 |-> HistFam(e.v, e.edges, i - 1)] ELSE <<>>, "histogram-of-a-family")
  \cup Chk(\A k \in 1..Len(e.got) : e.got[k] = e.edges, "histogram-edges")

(* ---- C35: the errors of the calibration ------------------------------------------------------- *)
\* Pixels: [nd: measured signal / normalisation (x 10^4), sn: normalisations, pv: expected angle, q: <<t, e (x 10^4), angle (1/100 deg)>>,
\* cov: nine covariances (x 10^6 g), chi (x 1000)], with e.ang the polariser's angles and e.g the gain (x 100).
\* A signal of m = 0.5 t (1 + e cos 2(phi - a)), counted with a normalisation of sn and gain g, has the
\* variance m / (sn g); the covariance of the fitted parameters is the inverse of
\* F = sum J J' / variance, and at the fit the weighted residuals are orthogonal to the derivatives J.
CosH(x) == LET k == x \div 100 r == x % 100 IN (Cos1(k) * (100 - r) + Cos1(k + 1) * r) \div 100
FitW(e, p, k) == (p.sn[k] * 1000) \div p.nd[k]                      \* x 100
FitA(e, p, k) == 2 * (p.q[3] - 100 * e.ang[k])
FitJ(e, p, k) ==
  LET c == CosH(FitA(e, p, k)) z == CosH(FitA(e, p, k) - 9000) t == p.q[1] ef == p.q[2]
  IN  <<(10000 + (ef * c) \div 10000) \div 2, (t * c) \div 20000, 0 - ((((t * ef) \div 10000) * z) \div 10000)>>
FitRes(e, p, k) == ((p.q[1] * ((100000000 + p.q[2] * CosH(FitA(e, p, k))) \div 2000) + 50000) \div 100000) - p.nd[k]
FisherOf(e, p) ==
  LET J == TLCEval([k \in 1..Len(e.ang) |-> FitJ(e, p, k)])
      cell(i, j) == LET t(k) == (((J[k][i] * J[k][j]) \div 10000) * FitW(e, p, k)) \div 100 IN SumRange(t, 1, Len(e.ang))
  IN  TLCEval([i \in 1..3 |-> [j \in 1..3 |-> cell(i, j)]])           \* x 10^4
FitErrFails(e) ==
  LET n == Len(e.ang)
      clean(p) == \A i \in 1..9 : Clean(p.cov[i]) /\ Abs(p.cov[i]) < 1000000
      fallback(p) == (\A i \in 1..9 : p.cov[i] = 0) /\ p.chi = 0
      inverse(p) ==
        LET F == FisherOf(e, p) C(i, j) == p.cov[3 * (i - 1) + j]
            \* entries of F C: the identity is 1000
            cellok(i, j) ==
              LET t(k) == (F[i][k] * C(k, j)) \div 10000
                  u(k) == Abs(t(k))
              IN  Near(SumRange(t, 1, 3), IF i = j THEN 1000 ELSE 0, 20 + (SumRange(u, 1, 3) \div 25))
        IN  \A i \in 1..3, j \in 1..3 : cellok(i, j) /\ Near(C(i, j), C(j, i), 2)
      gradient(p) ==
        \* unless it lies at the limit of what is allowed (15 degrees from the expected angle, e.lim)
        (Abs(p.q[3] - 100 * p.pv) < 1490 /\ \A i \in 1..2 : p.q[i] > e.lim[2 * i - 1] + 10 /\ p.q[i] < e.lim[2 * i] - 10) =>
        \A i \in 1..3 :
          LET t(k) == (((FitRes(e, p, k) * FitJ(e, p, k)[i]) \div 100) * FitW(e, p, k)) \div 10000
              u(k) == Abs(t(k)) \div 50 + (((3 * Abs(FitJ(e, p, k)[i])) \div 100) * FitW(e, p, k)) \div 10000
          IN  Abs(SumRange(t, 1, n)) <= 20 + SumRange(u, 1, n)
      chisq(p) ==
        LET t(k) == (FitRes(e, p, k) * FitRes(e, p, k) * FitW(e, p, k)) \div 1000
            u(k) == ((6 * Abs(FitRes(e, p, k)) + 9) * FitW(e, p, k)) \div 1000   \* residuals are known to 3 units
            of(x) == ((x * (e.g \div 10)) \div 100) \div (n - 3)           \* x 10^7 to chi x 1000
            want == of(SumRange(t, 1, n))
        IN  n > 3 => Clean(p.chi) /\ Near(p.chi, want, 60 + (want \div 50) + of(SumRange(u, 1, n)))
  IN
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE UNION {IF p.fb = 1 THEN Chk(fallback(p), "fallback-errors")
              ELSE IF ~clean(p) THEN {"covariance"}
              ELSE Chk(inverse(p), "covariance") \cup Chk(gradient(p), "best-fit") \cup Chk(chisq(p), "chi-square") : p \in SeqSet(e.px)}

(* ---- C30: keywords --------------------------------------------------------------------------- *)
KeywordsFails(e) ==
  LET fl(n, c) == (n * c) \div 1952
      ex(n, c) == (n * c) % 1952 = 0          \* exact: the implementation's float product may fall below
      ok(v, n, c) == v = n - fl(n, c) \/ (ex(n, c) /\ v \in {n - fl(n, c) - 1, n - fl(n, c) + 1})
  IN
  IF e.st # "ok" THEN {"unexpected-error"} ELSE
  Chk(e.n1 = e.n /\ e.n2 = e.n, "size-cards")
  \cup Chk(e.cd1 = e.ps * e.b /\ e.cd2 = e.ps * e.b, "plate-scale")
  \cup Chk(ok(e.p1, e.n, e.c[1]) /\ ok(e.p2, e.n, e.c[2]), "reference-pixel")
  \cup Chk(e.date = e.d \o "T" \o e.t, "date")

(* ---- C32: Chen-Wang-Liang calibration computed from measurements -------------------------------- *)
(* e.ims: measured images, e.dark, e.flat: grids or <<>>, e.occ: circle without flat correction or   *)
(* <<>>, e.ang: family of 0, 45, -45, 90; a                                                          *)
(* measurement with pixels P has Stokes vector s = (P0+P90, P0-P90, P45-P-45); with N = 1 + |s|^2   *)
(* its correction matrix is N/(|s|^2 |P|^2) * ideal(s) * P' and its offset P / N.  Both are the     *)
(* means over the measurements; results e.c (16 grids), e.d at scale 1000.                          *)
\* n = N, den = 2 |s|^2 |P|^2, i: doubled ideal pixels
CwlPoint(p(_), ang) ==
  LET s == <<p(ang[1]) + p(ang[4]), p(ang[1]) - p(ang[4]), p(ang[2]) - p(ang[3])>>
      s2 == s[1] * s[1] + s[2] * s[2] + s[3] * s[3]
      p2 == LET t(f) == p(f) * p(f) IN SumRange(t, 0, 3)
      ideal(f) == s[1] + (CASE f = ang[1] -> s[2] [] f = ang[4] -> -s[2] [] f = ang[2] -> s[3] [] OTHER -> -s[3])
  IN  [n |-> s2 + 1, den |-> 2 * s2 * p2, i |-> TLCEval([f \in 0..3 |-> ideal(f)]), p |-> TLCEval([f \in 0..3 |-> p(f)]), s |-> s]
CwlCalibFails(e) ==
  LET n == Len(e.ims)
      h == H(e.ims[1]) w == W(e.ims[1])
      hidden(y, x) == e.occ # <<>> /\ InPolar(y, x, <<e.occ[1], e.occ[2]>>, <<0, 2 * (e.occ[3] + 10)>>, <<0, 360>>, TRUE)
      hid == TLCEval(LET f(y, x) == IF hidden(y, x) THEN 1 ELSE 0 IN Mk(h, w, f))
      fv(y, x) == LET v == Px(e.flat, y, x) - (IF e.dark # <<>> THEN Px(e.dark, y, x) ELSE 0)
                  IN  IF e.dark # <<>> /\ (v <= 0 \/ Px(hid, y, x) = 1) THEN 1 ELSE v
      FL == TLCEval(IF e.flat = <<>> THEN e.ims[1] ELSE Mk(h, w, fv))
      fl(y, x) == Px(FL, y, x)
      flats == TLCEval({FL[y][x] : y \in 1..h, x \in 1..w})
      top == TLCEval(CHOOSE m \in flats : \A v \in flats : v <= m)
      cor(m, y, x) ==
        LET v == Px(e.ims[m], y, x)
            u == IF e.dark = <<>> THEN v ELSE Max2(0, v - Px(e.dark, y, x))
        IN  IF e.flat = <<>> \/ Px(hid, y, x) = 1 \/ fl(y, x) = 0 THEN u ELSE (u * top) \div fl(y, x)
      P == TLCEval([m \in 1..n |-> LET f(y, x) == cor(m, y, x) IN Mk(h, w, f)])
      at(m, Y, X, f) == Px(P[m], 2 * Y + f \div 2, 2 * X + (f % 2))
      q(m, Y, X) == LET p(f) == at(m, Y, X, f) IN CwlPoint(p, e.ang)
      ok(Y, X) ==
        LET z == TLCEval([m \in 1..n |-> q(m, Y, X)])
            mean(v, T(_)) == Clean(v) /\ Abs(v) < 100000000 /\ Abs(n * v - SumRange(T, 1, n)) <= 2 * n
        IN  \A a \in 0..1 : \A b \in 0..1 :
              /\ \A i \in 0..3, j \in 0..3 :
                   LET t(m) == IF z[m].den = 0 THEN 0 ELSE (1000 * z[m].n * z[m].i[i] * z[m].p[j]) \div z[m].den
                   IN  mean(Px(e.c[4 * i + j + 1], 2 * Y + a, 2 * X + b), t)
              /\ LET t(m) == (1000 * z[m].p[2 * a + b]) \div z[m].n IN mean(Px(e.d, 2 * Y + a, 2 * X + b), t)
  IN
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF ~(Stack(e.c, 16, h, w) /\ IsShape(e.d, h, w)) THEN {"shape"}
  ELSE Chk(\A Y \in 0..(h \div 2 - 1) : \A X \in 0..(w \div 2 - 1) : ok(Y, X), "correction")

(* the normalization estimated from the measurements lies a few deviations above the level common to     *)
(* most pixels: e.out = estimates by single pixels over that level x 10^4, e.sig its deviation x 10^5       *)
NormFails(e) ==
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE Chk(\A i \in 1..Len(e.out) : Clean(e.out[i]) /\ e.out[i] >= 10000 + (3 * e.sig) \div 20 /\ e.out[i] <= 10000 + e.sig \div 2, "normalization")
(* ---- C31: from measurements to Stokes vectors ------------------------------------------------------ *)
(* e.iqu: true I, Q, U of every superpixel, e.g: the image such a detector takes; a superpixel without   *)
(* a fit (e.occ, e.dead as above) gives the theoretical Stokes vector of its pixels (e.scale times).   *)
SceneFails(e) ==
  LET hs == H(e.iqu[1]) ws == W(e.iqu[1])
      touched(Y, X) == e.occ # <<>> /\
          LET R == e.occ[3] \div 2 dy == Y - e.occ[1] \div 2 dx == X - e.occ[2] \div 2 IN dy * dy + dx * dx <= R * R
      deadsp(Y, X) == \E f \in 0..3 : Px(e.dead, 2 * Y + f \div 2, 2 * X + (f % 2)) = 1
      ok(k, Y, X) ==
        LET P(f) == Px(e.g, 2 * Y + f \div 2, 2 * X + (f % 2))
            v == Px(e.out[k], Y, X)
            i == Px(e.iqu[1], Y, X)
        IN  IF touched(Y, X) \/ deadsp(Y, X) THEN Near(v, TheoAt(P, e.ang, k) \div 2, 3)
            ELSE Near(v, Px(e.iqu[k], Y, X), 3 + (i \div 100))
  IN
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF ~Stack(e.out, 3, hs, ws) THEN {"shape"}
  ELSE Chk(\A k \in 1..3 : \A Y \in 0..(hs-1) : \A X \in 0..(ws-1) : ok(k, Y, X), "stokes-not-recovered")

(* ---- C33: finding the occulter ------------------------------------------------------------------------ *)
\* from the image centre outwards: the first pixel beyond the fifth that exceeds thr times the mean of those before;
\* where it is exactly equal (rounding decides) the next one may be found as well
OccAlgo(g, thr) ==
  LET hy == H(g) \div 2 hx == W(g) \div 2
      line(d, i) == CASE d = 1 -> Px(g, hy - 1 - i, hx) [] d = 2 -> Px(g, hy + i, hx)
                      [] d = 3 -> Px(g, hy, hx - 1 - i) [] OTHER -> Px(g, hy, hx + i)
      len(d) == CASE d = 1 -> hy [] d = 2 -> H(g) - hy [] d = 3 -> hx [] OTHER -> W(g) - hx
      cum == TLCEval([d \in 1..4 |-> LET c[k \in 0..len(d)] == IF k = 0 THEN 0 ELSE c[k - 1] + line(d, k - 1) IN c])
      over(d, strict) == {i \in 6..(len(d) - 1) : IF strict THEN line(d, i) * i > thr * cum[d][i] ELSE line(d, i) > 0 /\ line(d, i) * i >= thr * cum[d][i]}
      least(S) == CHOOSE x \in S : \A y \in S : x <= y
      found(d) == IF over(d, FALSE) = {} THEN {} ELSE {least(over(d, FALSE))} \cup (IF over(d, TRUE) = {} THEN {} ELSE {least(over(d, TRUE))})
  IN  [sure |-> \A d \in 1..4 : over(d, TRUE) # {},
       is |-> {LET y0 == hy - a y1 == hy + b x0 == hx - c x1 == hx + d
               IN  <<(y0 + y1) \div 2, (x0 + x1) \div 2, (y1 - y0 + x1 - x0) \div 4>>
               : a \in found(1), b \in found(2), c \in found(3), d \in found(4)}]
OccAlgoFails(e) ==
  LET o == OccAlgo(e.src[1].g, e.thr)
  IN  IF e.st # "ok" THEN Chk(~o.sure, "not-found") ELSE Chk(e.out \in o.is, "occulter")
(* the true circle e.c = <<y, x, r>> in an image of size e.h, e.w; "sigmoid": fits of the chords       *)
(* through the image centre, "hough": the circle itself                                                *)
OccFindFails(e) ==
  LET cy == e.h \div 2 cx == e.w \div 2
      chord(d) == Isqrt(Max2(0, e.c[3] * e.c[3] - d * d))
      r == IF e.kind = "hough" THEN e.c[3] ELSE (chord(cx - e.c[2]) + chord(cy - e.c[1])) \div 2
  IN  IF e.st # "ok" THEN {"unexpected-error"}
      ELSE Chk(Near(e.out[1], e.c[1], e.tol) /\ Near(e.out[2], e.c[2], e.tol), "centre") \cup Chk(Near(e.out[3], r, e.tol + 1), "radius")

(* ---- C34: estimators ---------------------------------------------------------------------------------- *)
\* Otsu: no threshold separates the smoothed pixels better (sum of squared class sums over class sizes)
OtsuFails(e) ==
  LET g == e.src[1].g
      h == H(g) w == W(g)
      refl(i, n) == IF i < 0 THEN -i - 1 ELSE IF i >= n THEN 2 * n - 1 - i ELSE i
      med(y, x) == SortSeq([k \in 1..100 |-> Px(g, refl(y + (k - 1) \div 10 - 5, h), refl(x + ((k - 1) % 10) - 5, w))], <)[51]
      m == TLCEval(Mk(h, w, med))
      mv == TLCEval({m[i][j] : i \in 1..h, j \in 1..w})
      lo == CHOOSE v \in mv : \A u \in mv : v <= u
      hi == CHOOSE v \in mv : \A u \in mv : v >= u
      cnt == TLCEval([v \in mv |-> Cardinality({p \in (1..h) \X (1..w) : m[p[1]][p[2]] = v})])
      over(k, t1000) == LET f(v) == IF v \in mv /\ 1000 * v >= t1000 THEN cnt[v] * (IF k = 0 THEN 1 ELSE v) ELSE 0 IN SumRange(f, lo, hi)
      tot == over(1, 0)
      score(t) == LET n1 == over(0, t) s1 == over(1, t) n0 == h * w - n1 s0 == tot - s1
                  IN  (IF n1 = 0 THEN 0 ELSE (s1 * s1) \div n1) + (IF n0 = 0 THEN 0 ELSE (s0 * s0) \div n0)
      got == score(e.out)
  IN  IF e.st # "ok" THEN {"unexpected-error"}
      ELSE IF lo = hi THEN {}
      ELSE Chk(Clean(e.out) /\ e.out > 1000 * lo /\ e.out <= 1000 * hi, "outside-the-data")
           \cup Chk(\A v \in mv \ {lo} : got + 2 >= score(1000 * v), "worse-than-another")
\* e.v: integers, e.n: twice the number of deviations; results at scale 200 (mean) and 8 (median)
Med2(s) == LET z == SortSeq(s, <) N == Len(s) IN IF N % 2 = 1 THEN 2 * z[(N + 1) \div 2] ELSE z[N \div 2] + z[N \div 2 + 1]
Mad4(s) == Med2([i \in 1..Len(s) |-> Abs(2 * s[i] - Med2(s))])        \* 4 * median deviation
StatsFails(e) ==
  LET N == Len(e.v)
      S == SumSeq(e.v)
      Q == SumSeq([i \in 1..N |-> e.v[i] * e.v[i]])
      sd == Isqrt(10000 * (N * Q - S * S))        \* 100 * N * deviation
      mean(v, sg) == Clean(v) /\ Abs(v * N - (200 * S + sg * e.n * sd)) <= 2 * N + e.n + 1
      m2 == Med2(e.v)
      mad4 == Mad4(e.v)
  IN  IF e.st # "ok" THEN {"unexpected-error"}
      ELSE Chk(mean(e.out[1], -1), "mean-minus") \cup Chk(mean(e.out[2], 1), "mean-plus")
           \cup Chk(e.out[3] = 4 * m2 - e.n * mad4, "median-minus") \cup Chk(e.out[4] = 4 * m2 + e.n * mad4, "median-plus")
\* the values closer to the median than e.n / 2 median deviations, in their order
Kept(s, n) ==
  LET m2 == Med2(s)
      mad4 == Mad4(s)
      keep(v) == IF mad4 = 0 THEN n > 0 ELSE 4 * Abs(2 * v - m2) < n * mad4
  IN  SelectSeq(s, keep)
RejectFails(e) == IF e.st # "ok" THEN {"unexpected-error"} ELSE Chk(e.out = Kept(e.v, e.n), "kept")
\* both limits given: every value brought between them; otherwise the data as they are
FixFails(e) ==
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE Chk(e.out = [i \in 1..Len(e.v) |-> IF Len(e.lim) < 2 THEN e.v[i] ELSE Max2(e.lim[1], Min2(e.lim[2], e.v[i]))], "limits")
\* 1.083e-5 sr * 0.28 * texp_diffuser / (texp_image * I): e.out at scale 10^10
BsunFails(e) == IF e.st # "ok" THEN {"unexpected-error"}
                ELSE Chk(Clean(e.out) /\ e.out <= (30324 * e.t2) \div (e.t1 * e.i) + 2 /\ Abs(e.out * e.t1 * e.i - 30324 * e.t2) <= e.t1 * e.i + 1, "sun-units")
\* Poisson error in DN at 6.93 electrons per DN: e.out at scale 100
SigmaFails(e) == IF e.st # "ok" THEN {"unexpected-error"}
                 ELSE Chk(\A i \in 1..Len(e.v) : SqrtIs(e.out[i], (1000000 * e.v[i]) \div 693), "sigma")

PixOps == {"stokes", "planestokes", "pols", "permute", "split", "merge", "double", "mrebin", "prebin", "demosaic",
           "shift", "mshift", "same", "add", "sub", "mul", "addn", "subn", "muln", "sumof", "dark", "clip", "roi",
           "roibool", "rot", "rotplane", "flip", "align", "ifov", "clean", "hot", "apply", "applydouble", "cwl",
           "div", "divn", "flat", "maskdata", "maskstokes"}
PureFails(e) ==
  (IF e.op \in PixOps THEN PixFails(e)
   ELSE CASE e.op = "derived" -> IF e.st # "ok" THEN {"unexpected-error"}
                                 ELSE UNION {DerivedFails(e.ang, e.rows[i]) : i \in 1..Len(e.rows)}
          [] e.op = "line" -> IF e.st # "ok" THEN {"unexpected-error"} ELSE LineFails(e)
          [] e.op = "polarline" -> IF e.st # "ok" THEN {"unexpected-error"} ELSE PolarLineFails(e)
          [] e.op = "oblique" -> IF e.st # "ok" THEN {"unexpected-error"} ELSE ObliqueFails(e)
         [] e.op = "nrgf" -> NrgfFails(e)
          [] e.op = "angles" -> AnglesFails(e)
          [] e.op = "errstokes" -> ErrStokesFails(e)
          [] e.op = "errpars" -> ErrParsFails(e)
          [] e.op = "congrid" -> CongridFails(e)
          [] e.op = "mcongrid" -> MCongridFails(e)
          [] e.op = "rotany" -> RotAnyFails(e)
          [] e.op = "onesource" -> OneSourceFails(e)
          [] e.op = "stokesnear" -> StokesNearFails(e)
          [] e.op = "refused" -> RefusedFails(e)
          [] e.op = "worked" -> Chk(e.st = "ok", "unexpected-error")
          [] e.op = "trim" -> TrimFails(e)
          [] e.op = "size" -> SizeFails(e)
          [] e.op = "equal" -> SameFails(e)
          [] e.op = "set" -> SetFails(e)
          [] e.op = "subset" -> SubsetFails(e)
          [] e.op = "near" -> NearFails(e)
          [] e.op = "tree" -> TreeFails(e)
          [] e.op = "times" -> TimesFails(e)
          [] e.op = "decode" -> DecodeFails(e)
          [] e.op = "folder" -> FolderFails(e)
          [] e.op = "phasemap" -> PhaseMapFails(e)
          [] e.op = "calib" -> CalibFails(e)
          [] e.op = "fiterr" -> FitErrFails(e)
          [] e.op = "hist" -> HistFails(e)
          [] e.op = "class" -> ClassFails(e)
          [] e.op = "keywords" -> KeywordsFails(e)
          [] e.op = "cwlcalib" -> CwlCalibFails(e)
          [] e.op = "scene" -> SceneFails(e)
          [] e.op = "norm" -> NormFails(e)
          [] e.op = "occalgo" -> OccAlgoFails(e)
          [] e.op = "occfind" -> OccFindFails(e)
          [] e.op = "otsu" -> OtsuFails(e)
          [] e.op = "stats" -> StatsFails(e)
          [] e.op = "reject" -> RejectFails(e)
          [] e.op = "limits" -> FixFails(e)
          [] e.op = "bsun" -> BsunFails(e)
          [] e.op = "sigma" -> SigmaFails(e)
          [] e.op = "crash" -> {"crash-or-hang"}
          [] OTHER -> {"machinery-unknown-op"})
  \* inputs that must not change are recorded as digests before and after
  \cup (IF Has(e, "sin") THEN Chk(e.sin = e.sout, "input-modified") ELSE {})
=============================================================================
