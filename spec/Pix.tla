-------------------------------- MODULE Pix --------------------------------
(* Pixelwise operations, as recorded from the implementation: each event     *)
(* carries its source images (written out, or as the formula they were made  *)
(* from), its parameters and what came out (written out, or at sampled       *)
(* coordinates).  PixH/PixW/PixN give the shape and number of the result     *)
(* planes, Exp their pixels; a few operations whose results are not integers *)
(* in any fixed scale have a predicate instead (PixOK).                      *)
EXTENDS Polar

Has(r, f) == f \in DOMAIN r
\* large images are given by a formula
Gen(s, y, x) == ((s.a * y + s.b * x + s.c * ((y * x) % 1009) + s.d) % s.m) - s.o
SrcAt(e, i, y, x) == IF Has(e.src[i], "g") THEN Px(e.src[i].g, y, x) ELSE Gen(e.src[i], y, x)
SrcH(e, i) == IF Has(e.src[i], "g") THEN H(e.src[i].g) ELSE e.src[i].h
SrcW(e, i) == IF Has(e.src[i], "g") THEN W(e.src[i].g) ELSE e.src[i].w

(* ---- shape of the result ---- *)
PixH(e) ==
  CASE e.op \in {"stokes", "pols", "split", "planepols"} -> SrcH(e, 1) \div 2
    [] e.op \in {"merge", "double"} -> 2 * SrcH(e, 1)
    [] e.op = "mrebin" -> RebinDim(SrcH(e, 1), e.b)
    [] e.op = "prebin" -> PlainDim(SrcH(e, 1), e.b)
    [] e.op \in {"rot", "rotplane"} -> IF Even(e.k) THEN SrcH(e, 1) ELSE SrcW(e, 1)
    [] e.op \in {"apply", "applydouble"} -> IF e.op = "apply" THEN SrcH(e, 1) ELSE 2 * SrcH(e, 1)
    [] e.op = "align" -> SrcW(e, 1)
    [] OTHER -> SrcH(e, 1)
PixW(e) ==
  CASE e.op \in {"stokes", "pols", "split", "planepols"} -> SrcW(e, 1) \div 2
    [] e.op \in {"merge", "double"} -> 2 * SrcW(e, 1)
    [] e.op = "mrebin" -> RebinDim(SrcW(e, 1), e.b)
    [] e.op = "prebin" -> PlainDim(SrcW(e, 1), e.b)
    [] e.op \in {"rot", "rotplane"} -> IF Even(e.k) THEN SrcW(e, 1) ELSE SrcH(e, 1)
    [] e.op \in {"apply", "applydouble"} -> IF e.op = "apply" THEN SrcW(e, 1) ELSE 2 * SrcW(e, 1)
    [] e.op = "align" -> SrcH(e, 1)
    [] OTHER -> SrcW(e, 1)
PixN(e) ==
  CASE e.op \in {"stokes", "planestokes", "apply", "applydouble", "maskstokes"} -> 3
    [] e.op \in {"pols", "split", "demosaic", "permute"} -> 4
    [] OTHER -> 1

(* ---- expected pixel (0-based coordinates, plane k from 1) ---- *)
Exp(e, k, y, x) ==
  LET P(a, b) == SrcAt(e, 1, a, b)
      h == SrcH(e, 1)
      w == SrcW(e, 1)
  IN
  CASE e.op = "stokes" -> LET v(f) == SubAt(P, f, y, x) IN TheoAt(v, e.ang, k)
    [] e.op = "planestokes" -> LET v(f) == SrcAt(e, f + 1, y, x) IN TheoAt(v, e.ang, k)
    [] e.op = "pols" -> SubAt(P, e.ang[k], y, x)                \* 0, 45, -45, 90
    [] e.op = "permute" -> SrcAt(e, e.ang[k] + 1, y, x)
    [] e.op = "split" -> SubAt(P, k - 1, y, x)
    [] e.op = "merge" -> SrcAt(e, Fam(y, x) + 1, y \div 2, x \div 2)
    [] e.op = "double" -> P(y \div 2, x \div 2)
    [] e.op = "mrebin" -> RebinAt(P, e.b, y, x)
    [] e.op = "prebin" -> PlainAt(P, e.b, y, x)
    [] e.op = "demosaic" -> DemoAt(P, h \div 2, w \div 2, e.mode, k - 1, y, x)
    [] e.op = "shift" -> ShiftAt(P, h, w, e.dy, e.dx, e.fill, y, x)
    [] e.op = "mshift" -> ShiftAt(P, h, w, 2 * e.dy, 2 * e.dx, e.fill, y, x)
    [] e.op = "same" -> P(y, x)
    [] e.op = "add" -> P(y, x) + SrcAt(e, 2, y, x)
    [] e.op = "sub" -> P(y, x) - SrcAt(e, 2, y, x)
    [] e.op = "mul" -> P(y, x) * SrcAt(e, 2, y, x)
    [] e.op = "addn" -> P(y, x) + e.n
    [] e.op = "subn" -> P(y, x) - e.n
    [] e.op = "muln" -> P(y, x) * e.n
    [] e.op = "sumof" -> LET t(i) == SrcAt(e, i, y, x) IN SumRange(t, 1, Len(e.src))
    [] e.op = "dark" -> Max2(P(y, x) - SrcAt(e, 2, y, x), 0)
    [] e.op = "clip" -> Min2(Max2(P(y, x), e.lo), e.hi)
    [] e.op = "roi" /\ "c2" \in DOMAIN e -> IF InPolarHalf(y, x, e.c2, e.r2, e.th, e.super) THEN P(y, x) ELSE e.fill
    [] e.op = "roi" -> RoiAt(P, e.c, e.r2, e.th, e.fill, e.super, y, x)
    [] e.op = "roibool" -> IF InPolar(y, x, e.c, e.r2, e.th, e.super) THEN 1 ELSE 0
    [] e.op = "maskdata" -> RoiAt(P, e.c, <<2 * e.r, Everywhere>>, <<0, 360>>, e.fill, TRUE, y, x)
    [] e.op = "maskstokes" ->     \* plane k, source k; dm: the image is demosaiced
         LET S(a, b) == SrcAt(e, k, a, b)
             cc == IF e.dm THEN e.c ELSE <<TruncDiv(e.c[1], 2), TruncDiv(e.c[2], 2)>>
             rr == IF e.dm THEN e.r ELSE TruncDiv(e.r, 2)
         IN  RoiAt(S, cc, <<2 * rr, Everywhere>>, <<0, 360>>, e.fill, FALSE, y, x)
    [] e.op = "rot" ->    \* superpixel rotation
         LET S(a, b) == SubAt(P, Fam(y, x), a, b) IN Rot90At(S, h \div 2, w \div 2, e.k, y \div 2, x \div 2)
    [] e.op = "rotplane" -> Rot90At(P, h, w, e.k, y, x)
    [] e.op = "flip" -> IF e.axis = 0 THEN P(h - 1 - y, x) ELSE P(y, w - 1 - x)
    [] e.op = "align" ->
         LET S(a, b) == SubAt(P, Fam(y, x), a, b) IN S(h \div 2 - 1 - x \div 2, w \div 2 - 1 - y \div 2)
    [] e.op = "ifov" -> IfovAt(P, y, x)
    [] e.op = "clean" ->
         IF SrcAt(e, 2, y, x) = 1
         THEN LET S(a, b) == SubAt(P, Fam(y, x), a, b) IN MedianAt(S, y \div 2, x \div 2)
         ELSE P(y, x)
    [] e.op = "hot" ->    \* contrast (v-m)/(v+m) > num/den, den > 0, all pixels positive
         LET S(a, b) == SubAt(P, Fam(y, x), a, b)
             v == P(y, x)
             m == MedianAt(S, y \div 2, x \div 2)
         IN  IF v + m > 0 /\ (v - m) * e.den > e.num * (v + m) THEN 1 ELSE 0
    [] e.op = "apply" ->      \* sources 1..12 matrix, 13 data, 14 flags (if any)
         LET v(j) == SubAt(LAMBDA a, b : SrcAt(e, 13, a, b), j - 1, y, x)
             v0(f) == v(f + 1)
             m(i, j) == SrcAt(e, 4 * (i - 1) + j, y, x)
         IN  IF Len(e.src) < 14 \/ SrcAt(e, Len(e.src), y, x) = 1
             THEN DotAt(m, v, k) ELSE (e.ms * TheoAt(v0, e.ang, k)) \div 2
    [] e.op = "applydouble" ->   \* the same on the demosaiced planes 13..16
         LET v(j) == SrcAt(e, 12 + j, y, x)
             v0(f) == v(f + 1)
             m(i, j) == SrcAt(e, 4 * (i - 1) + j, y \div 2, x \div 2)
         IN  IF Len(e.src) < 17 \/ SrcAt(e, Len(e.src), y \div 2, x \div 2) = 1
             THEN DotAt(m, v, k) ELSE (e.ms * TheoAt(v0, e.ang, k)) \div 2
    [] e.op = "cwl" ->          \* sources 1 data, 2..17 C (by pixel), 18 d
         LET Q(a, b) == P(a, b) - SrcAt(e, 18, a, b)
             corr(a, b) == LET Y == 2 * (a \div 2) X == 2 * (b \div 2) i == Fam(a, b)
                               t(j) == SrcAt(e, 2 + 4 * i + (j - 1), Y, X) * SubAt(Q, j - 1, a \div 2, b \div 2)
                           IN  SumRange(t, 1, 4)
         IN  IfovAt(corr, y, x)

(* ---- operations decided by a predicate on the result v ---- *)
\* v * b stays in range
Small(v, b) == Clean(v) /\ Abs(v) <= 2000000000 \div Abs(b)
\* scale of the recorded quotients
QScale(e) == IF Has(e, "sc") THEN e.sc ELSE 1000
PixOK(e, k, y, x, v) ==
  CASE e.op \in {"div", "divn"} ->     \* v = QScale * quotient
         LET a == SrcAt(e, 1, y, x)
             b == IF e.op = "div" THEN SrcAt(e, 2, y, x) ELSE e.n
         IN  IF b = 0 THEN v = 0 ELSE Small(v, b) /\ Abs(v * b - QScale(e) * a) <= Abs(b)
    [] e.op = "flat" ->                \* v = QScale * corrected, e.sum/e.cnt the mean of the flat
         LET a == SrcAt(e, 1, y, x)
             f == SrcAt(e, 2, y, x)
         IN  IF f = 0 THEN v = QScale(e) * a
             ELSE Small(v, f * e.cnt) /\ Abs(v * f * e.cnt - QScale(e) * a * e.sum) <= Abs(f * e.cnt)
    [] OTHER -> v = Exp(e, k, y, x)

PixShape(e) == e.oh = PixH(e) /\ e.ow = PixW(e) /\ e.on = PixN(e)
PixFails(e) ==
  IF e.st # "ok" THEN {"unexpected-error"}
  ELSE IF ~PixShape(e) THEN {"shape"}
  ELSE IF Has(e, "smp")
  THEN Chk(\A i \in 1..Len(e.smp) : LET s == e.smp[i] IN PixOK(e, s[1], s[2], s[3], s[4]), "pixels")
  ELSE Chk(\A k \in 1..Len(e.out) : IsShape(e.out[k], PixH(e), PixW(e)), "shape")
       \cup Chk(\A k \in 1..Len(e.out) : \A y \in 1..PixH(e) : \A x \in 1..PixW(e) :
                  PixOK(e, k, y - 1, x - 1, e.out[k][y][x]), "pixels")
       \cup Chk(e.op = "flat" =>
                  LET s == e.src[2].g IN SumG(s) * e.cnt = H(s) * W(s) * e.sum, "machinery-flat-sum")
=============================================================================
