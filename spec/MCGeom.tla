------------------------------- MODULE MCGeom -------------------------------
(* The laws the pixel operators of the specification have to satisfy, for    *)
(* every configuration of a family: sizes, binnings, shifts, turns, radii,   *)
(* angles, end points.  A state is one configuration; the invariant Law is   *)
(* evaluated in each.  The linear operators are compared with their          *)
(* provenance on indicator images, which settles all pixel values at once.   *)
EXTENDS Misc
CONSTANTS What, Max
VARIABLE cf

Box(h, w) == (0..(h-1)) \X (0..(w-1))
Id(h, w) == LET f(y, x) == y * w + x + 1 IN Mk(h, w, f)
Shapes == {<<h, w>> : h \in 1..Max, w \in 1..Max}
EvenShapes == {s \in Shapes : Even(s[1]) /\ Even(s[2])}
FamOf(p) == Fam(p[1], p[2])
Vals(n, V) == [1..n -> V]
Perms4 == {a \in [1..4 -> 0..3] : {a[i] : i \in 1..4} = 0..3}

Configs ==
  CASE What = "stokes" -> {[v |-> v, a |-> a] : v \in Vals(4, {-1, 0, 2}), a \in Perms4}
    [] What = "families" -> {[s |-> s] : s \in EvenShapes}
    [] What = "rebin" -> {[s |-> s, b |-> b] : s \in Shapes, b \in 1..4}
    [] What = "plain" -> {[s |-> s, b |-> b] : s \in Shapes, b \in 1..4}
    [] What = "demosaic" -> {[s |-> s, m |-> m] : s \in EvenShapes, m \in DemoModes}
    [] What = "shift" -> {[s |-> s, dy |-> dy, dx |-> dx, ey |-> ey, ex |-> ex] :
                            s \in {t \in EvenShapes : t[1] * t[2] <= 24}, dy \in -3..3, dx \in -3..3, ey \in -1..2, ex \in -1..2}
    [] What = "turn" -> {[s |-> s, k |-> k, j |-> j] : s \in EvenShapes, k \in -1..4, j \in 0..3}
    [] What = "congrid" -> {[s |-> s, n |-> n] : s \in {t \in Shapes : t[1] >= 2 /\ t[2] >= 2}, n \in {t \in Shapes : t[1] >= 2 /\ t[2] >= 2}}
    [] What = "roi" -> {[s |-> s, y |-> y, x |-> x, r |-> r, o |-> o] :
                          s \in EvenShapes, y \in -1..Max, x \in -1..Max, r \in 0..3, o \in 0..3}
    [] What = "angle" -> {[dy |-> dy, dx |-> dx] : dy \in (-Max)..Max, dx \in (-Max)..Max}
    [] What = "line" -> {[h |-> Max, w |-> Max, y0 |-> p[1], x0 |-> p[2], y1 |-> q[1], x1 |-> q[2]] : p \in Box(Max, Max), q \in Box(Max, Max)}
    [] What = "median" -> {[a |-> a] : a \in Vals(4, 0..Max)}
    [] What = "dark" -> {[a |-> a, b |-> b] : a \in (-Max)..Max, b \in (-Max)..Max}
    [] What = "decode" -> {[b0 |-> a, b1 |-> b, b2 |-> d] : a \in {0, 1, 15, 16, 85, 254, 255} \cup 0..Max, b \in 0..255, d \in {0, 1, 15, 16, 170, 255} \cup 0..Max}
    [] What = "norm" -> {[a |-> a] : a \in (-Max)..Max}
    [] What = "sqrt" -> {[n |-> n] : n \in 0..Max}
    [] What = "time" -> {[a |-> a, b |-> b, d |-> d] : a \in Vals(3, 0..2), b \in Vals(3, 0..2), d \in Vals(3, 0..1)}
    [] What = "phase" -> {[a |-> a, o |-> o, t |-> t] : a \in Perms4, o \in Vals(4, {-22, -10, 0, 10, 22}), t \in {0, 1}}
    [] What = "fallback" -> {[a |-> a, S |-> v] : a \in Perms4, v \in [1..3 -> {-3, 0, 1, 4}]}
    [] What = "occulter" -> {[s |-> s, y |-> y, x |-> x, r |-> r] : s \in EvenShapes, y \in 0..(Max - 1), x \in 0..(Max - 1), r \in 0..5}
    [] What = "ifov" -> {[s |-> s] : s \in EvenShapes}
    [] What = "cwl" -> {[s |-> s, p |-> p] : s \in {t \in EvenShapes : t[1] * t[2] <= 16}, p \in Perms4}
    [] What = "keywords" -> {[n |-> n, c |-> c] : n \in {8, 61, 122, 976, 1952}, c \in 0..Max}
    [] What = "clean" -> {[s |-> s, k |-> k] : s \in {t \in EvenShapes : t[1] * t[2] <= 36}, k \in 0..Max}
    [] What = "scene" -> {[i |-> i, q |-> q, u |-> u, a |-> a] : i \in 0..Max, q \in (-Max)..Max, u \in (-Max)..Max, a \in Perms4}
    [] What = "cwlcalib" -> {[v |-> v, a |-> a] : v \in Vals(4, 0..Max), a \in Perms4}
    [] What = "disc" -> {[h |-> h, w |-> w, y |-> y, x |-> x, r |-> r] : h \in {24, 27}, w \in {24, 29}, y \in (-Max)..Max, x \in (-Max)..Max, r \in {8, 9}}
    [] What = "stats" -> {[v |-> v, k |-> k] : v \in UNION {Vals(n, -2..2) : n \in 1..Max}, k \in {-3, 2}}
    [] What = "hist" -> {[h |-> h, w |-> w, m |-> m, b |-> b] : h \in {2 * n : n \in 1..(Max \div 2)}, w \in {2 * n : n \in 1..(Max \div 2)}, m \in 2..7, b \in SUBSET (0..4)}
    [] What = "fisher" -> {[a |-> a, q |-> <<t, ef, 100 * d>>] : a \in {<<0, 45, 90, b, g>> : b \in {-45, 20, 70, 135}, g \in {10, 60, 160}},
                            t \in {5000, 9000}, ef \in {6000, 9500}, d \in {15 * n : n \in 0..Max}}
    [] OTHER -> {}

(* the orientation map stands for the pixels: relabelling both changes nothing;  *)
(* exchanging two opposite polarizers only changes one sign                      *)
StokesLaw ==
  LET P(k) == cf.v[k + 1]
      a == cf.a
      sw(i, j) == [k \in 1..4 |-> IF k = i THEN a[j] ELSE IF k = j THEN a[i] ELSE a[k]]
  IN  /\ IsAngleMap(a)
      /\ \A n \in 1..3 : \A b \in Perms4 :
            LET Q(k) == cf.v[b[k + 1] + 1] binv(f) == CHOOSE k \in 0..3 : b[k + 1] = f
            IN  TheoAt(Q, [i \in 1..4 |-> binv(a[i])], n) = TheoAt(P, a, n)
      /\ TheoAt(P, sw(1, 4), 1) = TheoAt(P, a, 1) /\ TheoAt(P, sw(1, 4), 2) = -TheoAt(P, a, 2) /\ TheoAt(P, sw(1, 4), 3) = TheoAt(P, a, 3)
      /\ TheoAt(P, sw(2, 3), 1) = TheoAt(P, a, 1) /\ TheoAt(P, sw(2, 3), 2) = TheoAt(P, a, 2) /\ TheoAt(P, sw(2, 3), 3) = -TheoAt(P, a, 3)
      /\ (\A i, j \in 1..4 : cf.v[i] = cf.v[j]) => TheoAt(P, a, 2) = 0 /\ TheoAt(P, a, 3) = 0
      /\ \A n \in 1..3 : LET T(k) == 3 * P(k) IN TheoAt(T, a, n) = 3 * TheoAt(P, a, n)

FamiliesLaw ==
  LET h == cf.s[1] w == cf.s[2] g == Id(h, w) s == Split(g) IN
  /\ EqG(Merge(s), g)
  /\ \A k \in 1..4 : IsShape(s[k], h \div 2, w \div 2)
  /\ \A k, j \in 1..4 : \A y, yy \in 0..(h \div 2 - 1) : \A x, xx \in 0..(w \div 2 - 1) :
        (k # j \/ y # yy \/ x # xx) => Px(s[k], y, x) # Px(s[j], yy, xx)
  /\ EqG(Double(s[1]), Demosaic(ScaleG(g, 1), "mean")[1])

BinLaw(Src(_,_,_), Dim(_,_), blk, keep) ==
  LET h == cf.s[1] w == cf.s[2] b == cf.b
      oh == Dim(h, b) ow == Dim(w, b)
      Out == Box(oh, ow)
      In == Box(TrimTo(h, blk * b), TrimTo(w, blk * b))
      S(o) == Src(o[1], o[2], b)
  IN  /\ oh * b = TrimTo(h, blk * b) /\ ow * b = TrimTo(w, blk * b)
      /\ \A o \in Out : Cardinality(S(o)) = b * b /\ S(o) \subseteq In /\ (keep => \A p \in S(o) : FamOf(p) = FamOf(o))
      /\ \A o, q \in Out : o = q \/ S(o) \cap S(q) = {}
      /\ UNION {S(o) : o \in Out} = (IF Out = {} THEN {} ELSE In)
      /\ \A o \in Out : \A p \in In :
            LET ind(y, x) == IF <<y, x>> = p THEN 1 ELSE 0 IN
            (IF keep THEN RebinAt(ind, b, o[1], o[2]) ELSE PlainAt(ind, b, o[1], o[2])) = (IF p \in S(o) THEN 1 ELSE 0)
      /\ (keep => Even(oh) /\ Even(ow))
      \* by b and then by d is by b * d where the sizes divide
      /\ \A d \in 1..2 : (h % (blk * b * d) = 0 /\ w % (blk * b * d) = 0) =>
            \A o \in Box(Dim(h, b * d), Dim(w, b * d)) :
               Src(o[1], o[2], b * d) = UNION {S(p) : p \in Src(o[1], o[2], d)}

DemosaicLaw ==
  LET h == cf.s[1] w == cf.s[2] hs == h \div 2 ws == w \div 2
      at(P(_,_), k, y, x) == DemoAt(P, hs, ws, cf.m, k, y, x)
  IN  \A k \in 0..3 : \A y \in 0..(h-1) : \A x \in 0..(w-1) :
        LET wt(a, b) == LET ind(i, j) == IF i = a /\ j = b THEN 1 ELSE 0 IN at(ind, k, y, x)
            one(a, b) == 1
            nz == {p \in Box(h, w) : wt(p[1], p[2]) # 0}
        IN  /\ \A p \in nz : wt(p[1], p[2]) > 0 /\ FamOf(p) = k
            /\ at(one, k, y, x) = (IF cf.m = "mean" THEN 1 ELSE 4)
            /\ {<<p[1] \div 2, p[2] \div 2>> : p \in nz}
                 = (IF cf.m = "mean" THEN {<<y \div 2, x \div 2>>} ELSE DemoSrc(y, x, hs, ws))
            /\ cf.m = "adjacent" => \A p, q \in nz : wt(p[1], p[2]) = wt(q[1], q[2])

ShiftLaw ==
  LET h == cf.s[1] w == cf.s[2] g == Id(h, w)
      s == Shift(g, cf.dy, cf.dx, 0)
      m == ShiftMicropol(g, cf.dy, cf.dx, 0)
  IN  /\ IsShape(s, h, w)
      /\ \A p \in Box(h, w) : LET v == Px(s, p[1], p[2]) IN
            v = 0 \/ v = Px(g, p[1] - cf.dy, p[2] - cf.dx)
      /\ Cardinality({p \in Box(h, w) : Px(s, p[1], p[2]) = 0}) = h * w - Max2(h - Abs(cf.dy), 0) * Max2(w - Abs(cf.dx), 0)
      /\ \A p \in Box(h, w) : LET v == Px(m, p[1], p[2]) IN v = 0 \/ Fam((v - 1) \div w, (v - 1) % w) = FamOf(p)
      \* superpixels move whole
      /\ \A p \in Box(h, w) : (Px(m, p[1], p[2]) = 0) = (Px(m, 2 * (p[1] \div 2), 2 * (p[2] \div 2)) = 0)
      \* twice in the same direction
      /\ (cf.ey * cf.dy >= 0 /\ cf.ex * cf.dx >= 0) => EqG(Shift(s, cf.ey, cf.ex, 0), Shift(g, cf.dy + cf.ey, cf.dx + cf.ex, 0))

TurnLaw ==
  LET h == cf.s[1] w == cf.s[2] g == Id(h, w) r == Rot90(g, cf.k) a == AlignData(g)
      v(x) == {Px(x, p[1], p[2]) : p \in Box(H(x), W(x))}
      famOK(x) == \A p \in Box(H(x), W(x)) : LET n == Px(x, p[1], p[2]) - 1 IN Fam(n \div w, n % w) = FamOf(p)
      ang == <<0, 1, 2, 3>>
  IN  /\ v(r) = v(g) /\ H(r) * W(r) = h * w
      /\ EqG(Rot90(r, cf.j), Rot90(g, cf.k + cf.j))
      /\ EqG(Rot90(g, 2), FlipX(FlipY(g)))
      /\ famOK(RotMicropol(g, cf.k)) /\ v(RotMicropol(g, cf.k)) = v(g)
      /\ famOK(a) /\ v(a) = v(g) /\ EqG(AlignData(a), g)
      /\ LET t == TheoStokes(Split(RotMicropol(g, cf.k)), ang) u == TheoStokes(Split(g), ang) IN
         \A n \in 1..3 : EqG(t[n], Rot90(u[n], cf.k))
      /\ EqG(RotMicropol(RotMicropol(g, cf.k), cf.j), RotMicropol(g, cf.k + cf.j))

CongridLaw ==
  LET h == cf.s[1] w == cf.s[2] m == cf.n[1] n == cf.n[2] k == (m - 1) * (n - 1)
      at(i, j) == LET P(y, x) == 7 * y + x * x IN CongridAt(P, h, w, m, n, i, j)
      F(y, x) == 7 * y + x * x
  IN  /\ \A i \in 0..(m-1) : \A j \in 0..(n-1) :
           LET one(y, x) == 1
               wt(a, b) == LET ind(y, x) == IF y = a /\ x = b THEN 1 ELSE 0 IN CongridAt(ind, h, w, m, n, i, j)
               nz == {p \in Box(h, w) : wt(p[1], p[2]) # 0}
           IN  /\ CongridAt(one, h, w, m, n, i, j) = k
               /\ \A p \in nz : wt(p[1], p[2]) > 0 /\ Abs(p[1] * (m - 1) - i * (h - 1)) < m /\ Abs(p[2] * (n - 1) - j * (w - 1)) < n
      /\ at(0, 0) = k * F(0, 0) /\ at(m - 1, n - 1) = k * F(h - 1, w - 1) /\ at(0, n - 1) = k * F(0, w - 1) /\ at(m - 1, 0) = k * F(h - 1, 0)
      /\ (m = h /\ n = w) => \A i \in 0..(m-1) : \A j \in 0..(n-1) : at(i, j) = k * F(i, j)

RoiLaw ==
  LET h == cf.s[1] w == cf.s[2] ctr == <<cf.y, cf.x>>
      in(lo, hi, t0, t1, sup, p) == InPolar(p[1], p[2], ctr, <<2 * lo, 2 * hi>>, <<t0, t1>>, sup)
      A == <<0, 90, 210, 300, 360>>
  IN  \A p \in Box(h, w) : \A sup \in BOOLEAN :
        \* sectors partition the full circle
        /\ in(cf.r, 9, 0, 360, sup, p) = (\E i \in 1..4 : in(cf.r, 9, A[i], A[i + 1], sup, p))
        /\ \A i, j \in 1..4 : i = j \/ ~(in(cf.r, 9, A[i], A[i + 1], sup, p) /\ in(cf.r, 9, A[j], A[j + 1], sup, p))
        \* rings partition
        /\ LET mid == cf.r + 2 * (cf.o \div 2) IN
           (Even(cf.r) \/ ~sup) => in(cf.r, 14, 0, 360, sup, p) = (in(cf.r, mid, 0, 360, sup, p) \/ in(mid, 14, 0, 360, sup, p))
        \* a wider occulter hides more
        /\ in(cf.r + cf.o, 14, 0, 360, sup, p) => in(cf.r, 14, 0, 360, sup, p)
        \* whole superpixels
        /\ in(cf.r, 9, 90, 300, TRUE, p) = in(cf.r, 9, 90, 300, TRUE, <<2 * (p[1] \div 2), 2 * (p[2] \div 2)>>)

AngleLaw ==      \* exactly one of the 24 sectors of 15 degrees, and the right quadrant
  LET n == {k \in 0..23 : AngleIn(cf.dy, cf.dx, 15 * k, 15 * k + 15)} IN
  /\ Cardinality(n) = 1
  /\ \A k \in n : cf.dy # 0 \/ cf.dx # 0 =>
       (k \in 0..5) = (cf.dx > 0 /\ cf.dy >= 0) /\ (k \in 6..11) = (cf.dx <= 0 /\ cf.dy > 0) /\ (k \in 12..17) = (cf.dx < 0 /\ cf.dy <= 0)
  /\ \A k \in 1..23 : AngleGE(cf.dy, cf.dx, 15 * k) => AngleGE(cf.dy, cf.dx, 15 * k - 15)

\* the exact line satisfies the clauses, and they leave nothing but rounding open
LineLaw ==
  LET dy == cf.y1 - cf.y0 dx == cf.x1 - cf.x0 n == Max2(Abs(dy), Abs(dx))
      rnd(a, s) == IF n = 0 THEN a ELSE a + TruncDiv(2 * s + Sgn(s) * n, 2 * n)
      ev == [from |-> <<cf.y0, cf.x0>>, to |-> <<cf.y1, cf.x1>>, h |-> cf.h, w |-> cf.w,
             src |-> <<[a |-> 7, b |-> 1, c |-> 0, d |-> 0, m |-> 1000, o |-> 0]>>,
             ys |-> [i \in 1..(n + 1) |-> rnd(cf.y0, (i - 1) * dy)], xs |-> [i \in 1..(n + 1) |-> rnd(cf.x0, (i - 1) * dx)],
             vals |-> [i \in 1..(n + 1) |-> Gen([a |-> 7, b |-> 1, c |-> 0, d |-> 0, m |-> 1000, o |-> 0], rnd(cf.y0, (i - 1) * dy), rnd(cf.x0, (i - 1) * dx))]]
  IN  /\ LineFails(ev) = {}
      /\ n > 0 => LineFails([ev EXCEPT !.ys = SubSeq(@, 1, n), !.xs = SubSeq(@, 1, n), !.vals = SubSeq(@, 1, n)]) # {}
      /\ LineFails([ev EXCEPT !.ys[1] = @ + 1]) # {}
      /\ LineFails([ev EXCEPT !.vals[n + 1] = @ + 1]) # {}

MedianLaw ==
  LET t == Third(cf.a[1], cf.a[2], cf.a[3], cf.a[4]) IN
  /\ \E i \in 1..4 : cf.a[i] = t
  /\ Cardinality({i \in 1..4 : cf.a[i] <= t}) >= 3 /\ Cardinality({i \in 1..4 : cf.a[i] >= t}) >= 2
DarkLaw == LET d == Dark(<<<<cf.a>>>>, <<<<cf.b>>>>)[1][1] IN d >= 0 /\ (d > 0 => d + cf.b = cf.a) /\ (d = 0 => cf.a <= cf.b)
Pack(p, q) == <<p \div 16, (p % 16) * 16 + (q % 16), q \div 16>>
DecodeLaw == LET u == Unpack(<<cf.b0, cf.b1, cf.b2>>) IN u[1] \in 0..4095 /\ u[2] \in 0..4095 /\ Pack(u[1], u[2]) = <<cf.b0, cf.b1, cf.b2>>
NormLaw ==
  LET ok(b) == AnglesFails([st |-> "ok", half |-> 180, tol |-> 0, ishape |-> <<1>>, oshape |-> <<1>>, after |-> <<cf.a>>, in |-> <<cf.a>>, out |-> <<b>>]) = {}
  IN  Cardinality({b \in -181..181 : ok(b)}) = 1
SqrtLaw == LET r == Isqrt(cf.n) IN r * r <= cf.n /\ (r + 1) * (r + 1) > cf.n /\ SqrtIs(r, cf.n)
TimeLaw ==   \* a total order
  /\ LexLE(cf.a, cf.a) /\ (LexLE(cf.a, cf.b) \/ LexLE(cf.b, cf.a))
  /\ (LexLE(cf.a, cf.b) /\ LexLE(cf.b, cf.a)) => cf.a = cf.b
  /\ (LexLE(cf.a, cf.b) /\ LexLE(cf.b, cf.d)) => LexLE(cf.a, cf.d)
\* families whose phases lie within 22 degrees of 0, 45, -45, 90 (or -90) get a complete map
PhaseLaw ==
  LET base == <<0, 45, -45, 90>>
      fam(f) == CHOOSE i \in 1..4 : cf.a[i] = f
      ph == [f \in 1..4 |-> base[fam(f - 1)] + cf.o[f] - (IF cf.t = 1 /\ fam(f - 1) = 4 THEN 180 ELSE 0)]
  IN  PhaseMapFails([st |-> "ok", phases |-> ph, map |-> cf.a]) = {}

\* the fallback matrix of the expected angles undoes the ideal polarizers of those angles
FallbackLaw ==
  LET base == <<0, 45, -45, 90>>
      prev == [f \in 1..4 |-> base[cf.a[f] + 1]]                 \* expected angle of each family
      fam(i) == CHOOSE f \in 1..4 : cf.a[f] = i - 1              \* family of base[i]
      ang == [i \in 1..4 |-> fam(i) - 1]
      cs(d) == CASE d = 0 -> 1 [] d = 90 -> -1 [] OTHER -> 0       \* cosine and sine of twice the angle
      sn(d) == CASE d = 45 -> 1 [] d = -45 -> -1 [] OTHER -> 0
      px(f) == cf.S[1] + cf.S[2] * cs(prev[f + 1]) + cf.S[3] * sn(prev[f + 1])    \* twice the signal behind the polarizer
  IN  \A n \in 1..3 : TheoAt(px, ang, n) = 4 * cf.S[n]

\* the same superpixels are hidden by the data mask and by the calibration's occulter (up to its radius)
OcculterLaw ==
  LET h == cf.s[1] w == cf.s[2]
      one(y, x) == 1
      m == MaskData(Mk(h, w, one), <<cf.y, cf.x>>, cf.r, 0)
      R == cf.r \div 2
      hid(Y, X) == LET dy == Y - TruncDiv(cf.y, 2) dx == X - TruncDiv(cf.x, 2) IN dy * dy + dx * dx <= R * R
      S == [c \in 1..3 |-> Mk(h \div 2, w \div 2, one)]
      ms == MaskStokes(S[1], <<cf.y, cf.x>>, cf.r, 0, FALSE)
      centre == cf.y \in 0..(h-1) /\ cf.x \in 0..(w-1)
  IN  centre =>
      /\ \A p \in Box(h, w) : (Px(m, p[1], p[2]) = 0) = hid(p[1] \div 2, p[2] \div 2)
      /\ \A p \in Box(h \div 2, w \div 2) : (Px(ms, p[1], p[2]) = 0) = hid(p[1], p[2])
      /\ Px(m, cf.y, cf.x) = 0                                   \* the centre is always hidden

\* each corrected pixel is made of four pixels of its own family, its own among them
IfovLaw ==
  LET h == cf.s[1] w == cf.s[2] IN
  \A p \in Box(h, w) :
    LET wt(a, b) == LET ind(i, j) == IF i = a /\ j = b THEN 1 ELSE 0 IN IfovAt(ind, p[1], p[2])
        nz == {q \in Box(h, w) : wt(q[1], q[2]) # 0}
    IN  IF p[1] < 2 \/ p[2] < 2 THEN nz = {}
        ELSE Cardinality(nz) = 4 /\ p \in nz /\ \A q \in nz : wt(q[1], q[2]) = 1 /\ FamOf(q) = FamOf(p)
                                                       /\ q[1] \in {p[1], p[1] - 2} /\ q[2] \in {p[2], p[2] - 2}

(* ideal pixels give back the scene, for every orientation map *)
SceneLaw ==
  LET P(f) == CASE f = cf.a[1] -> cf.i + cf.q [] f = cf.a[4] -> cf.i - cf.q [] f = cf.a[2] -> cf.i + cf.u [] OTHER -> cf.i - cf.u
  IN  TheoAt(P, cf.a, 1) = 4 * cf.i /\ TheoAt(P, cf.a, 2) = 4 * cf.q /\ TheoAt(P, cf.a, 3) = 4 * cf.u

(* the calibration made from one measurement turns it into the ideal pixels of its own Stokes vector: *)
(* n / den * ideal * P' (P - P / n) = ideal / 2, and those pixels have that Stokes vector              *)
CwlCalibLaw ==
  LET P(f) == cf.v[f + 1]
      z == CwlPoint(P, cf.a)
      t(f) == P(f) * P(f)
      I(f) == z.i[f]
  IN  /\ 2 * (z.n - 1) * SumRange(t, 0, 3) = z.den
      /\ (z.den = 0) = (z.s = <<0, 0, 0>>)
      /\ TheoAt(I, cf.a, 1) = 4 * z.s[1] /\ TheoAt(I, cf.a, 2) = 4 * z.s[2] /\ TheoAt(I, cf.a, 3) = 4 * z.s[3]

(* a black disc on a bright background is found: its centre, and a radius that fits its chords *)
DiscLaw ==
  LET cy == cf.h \div 2 + cf.y cx == cf.w \div 2 + cf.x
      f(y, x) == IF (y - cy) * (y - cy) + (x - cx) * (x - cx) <= cf.r * cf.r THEN 0 ELSE 9
      o == OccAlgo(Mk(cf.h, cf.w, f), 4)
  IN  /\ o.sure /\ o.is # {}
      /\ \A p \in o.is : Near(p[1], cy, 1) /\ Near(p[2], cx, 1) /\ Near(p[3], cf.r, 1)

(* order, shifts and signs *)
StatsLaw ==
  LET v == cf.v
      N == Len(v)
      sh == [i \in 1..N |-> v[i] + cf.k]
      sc == [i \in 1..N |-> cf.k * v[i]]
      rv == [i \in 1..N |-> v[N + 1 - i]]
  IN  /\ Med2(sh) = Med2(v) + 2 * cf.k /\ Mad4(sh) = Mad4(v)
      /\ Med2(sc) = cf.k * Med2(v) /\ Mad4(sc) = Abs(cf.k) * Mad4(v)
      /\ Med2(rv) = Med2(v) /\ Mad4(rv) = Mad4(v)
      /\ \E i, j \in 1..N : Med2(v) = v[i] + v[j]
      \* outliers: the same values in other units, less than half of them, kept once and for all
      /\ \A n \in 0..6 :
           LET kp == Kept(v, n) IN
           /\ Kept(sh, n) = [i \in 1..Len(kp) |-> kp[i] + cf.k] /\ Kept(sc, n) = [i \in 1..Len(kp) |-> cf.k * kp[i]]
           /\ Len(kp) <= Len(Kept(v, n + 1)) /\ (n > 2 => 2 * Len(kp) >= N)

\* a permutation matrix without offset exchanges families before the field-of-view correction;
\* an offset equal to the image leaves nothing; the result is linear in the image
CwlLaw ==
  LET h == cf.s[1] w == cf.s[2]
      Ev(g, d) == [op |-> "cwl", src |-> <<[g |-> g]>> \o [k \in 1..16 |-> LET c(y, x) == IF cf.p[(k - 1) \div 4 + 1] = (k - 1) % 4 THEN 1 ELSE 0
                                                                           IN  [g |-> Mk(h, w, c)]] \o <<[g |-> d]>>]
      z(y, x) == 0
      Z == Mk(h, w, z)
      g == Id(h, w)
      t(y, x) == 3 * Px(g, y, x)
      perm(y, x) == Px(g, 2 * (y \div 2) + cf.p[Fam(y, x) + 1] \div 2, 2 * (x \div 2) + (cf.p[Fam(y, x) + 1] % 2))
      want == Ifov(Mk(h, w, perm))
  IN  \A y \in 0..(h-1) : \A x \in 0..(w-1) :
        /\ Exp(Ev(g, Z), 1, y, x) = Px(want, y, x)
        /\ Exp(Ev(g, g), 1, y, x) = 0
        /\ Exp(Ev(Mk(h, w, t), Z), 1, y, x) = 3 * Px(want, y, x)

\* the reference pixel stays on the image, and is mirrored
KeywordsLaw ==
  LET ev(p) == [st |-> "ok", n |-> cf.n, n1 |-> cf.n, n2 |-> cf.n, cd1 |-> 6, cd2 |-> 6, ps |-> 3, b |-> 2, p1 |-> p, p2 |-> cf.n, c |-> <<cf.c, 0>>,
                d |-> "D", t |-> "T", date |-> "DTT"]
      ok == {p \in -2..(cf.n + 2) : KeywordsFails(ev(p)) = {}}
  IN  cf.c <= 1952 => ok # {} /\ Cardinality(ok) <= 3 /\ \A p \in ok : Abs(1952 * (cf.n - p) - cf.n * cf.c) <= 1952

\* cleaning touches flagged pixels only, never leaves the range of the family, and an image of equal pixels stays
CleanLaw ==
  LET h == cf.s[1] w == cf.s[2]
      g == LET f(y, x) == (y * 7 + x * 3 + cf.k) % 11 IN Mk(h, w, f)
      fl(y, x) == (y + 2 * x + cf.k) % 3 = 0
      all(y, x) == TRUE
      c == CleanHot(g, fl) d == CleanHot(Const(h, w, 5), all)
      fv(k) == {Px(SubIm(g, k), Y, X) : Y \in 0..(h \div 2 - 1), X \in 0..(w \div 2 - 1)}
  IN  /\ \A p \in Box(h, w) : IF fl(p[1], p[2]) THEN Px(c, p[1], p[2]) \in fv(FamOf(p)) ELSE Px(c, p[1], p[2]) = Px(g, p[1], p[2])
      /\ EqG(d, Const(h, w, 5))

(* every pixel between the first and the last edge is in one bin; the families share  *)
(* the bins; joining two bins adds their counts                                       *)
HistLaw ==
  LET g == [y \in 1..cf.h |-> [x \in 1..cf.w |-> (y * 3 + x * x) % cf.m]]
      n == Cardinality(cf.b)
      ed == CHOOSE q \in [1..n -> cf.b] : \A i \in 1..(n - 1) : q[i] < q[i + 1]
      t == HistAll(g, ed) f(i) == HistFam(g, ed, i)
      inside == Cardinality({p \in (1..cf.h) \X (1..cf.w) : ed[1] <= g[p[1]][p[2]] /\ g[p[1]][p[2]] <= ed[n]})
      join(i) == SubSeq(ed, 1, i - 1) \o SubSeq(ed, i + 1, n)       \* without inner edge i
  IN  n >= 2 =>
      /\ SumSeq(t) = inside
      /\ \A k \in 1..(n - 1) : t[k] = f(0)[k] + f(1)[k] + f(2)[k] + f(3)[k]
      /\ \A i \in 2..(n - 1) : HistAll(g, join(i))[i - 1] = t[i - 1] + t[i]

(* the information about the fitted parameters: symmetric and positive, the same for  *)
(* every order of the measurements, proportional to the counts, growing with each      *)
(* measurement, unchanged when everything turns by half a turn                         *)
FisherLaw ==
  LET ev(a) == [ang |-> a, g |-> 100]
      sig(a, q, k) == ((q[1] * (10000 + (q[2] * CosH(2 * (q[3] - 100 * a[k]))) \div 10000)) \div 20000)
      px(a, q, c) == [nd |-> [k \in 1..Len(a) |-> Max2(1, sig(a, q, k))], sn |-> [k \in 1..Len(a) |-> c], q |-> q]
      Fi(a, q, c) == FisherOf(ev(a), px(a, q, c))
      a == cf.a q == cf.q n == Len(a)
      F == TLCEval(Fi(a, q, 1000))
      near(A, B) == \A i, j \in 1..3 : Near(A[i][j], B[i][j], 30 + (Max2(F[i][i], F[j][j]) \div 100))
      rev == [k \in 1..n |-> a[n + 1 - k]]
      half == [k \in 1..n |-> a[k] + 180]
      twice == Fi(a, q, 2000)
      less == Fi(SubSeq(a, 1, n - 1), q, 1000)
      dbl == [i \in 1..3 |-> [j \in 1..3 |-> 2 * F[i][j]]]
      \* (x 10^4: brought down for the products)
      g(i, j) == F[i][j] \div 100
  IN  /\ \A i, j \in 1..3 : F[i][j] = F[j][i]
      /\ \A i \in 1..3 : F[i][i] > 0 /\ F[i][i] >= less[i][i] - 30
      /\ \A i, j \in 1..3 : i # j => g(i, i) * g(j, j) > g(i, j) * g(i, j)
      /\ near(F, Fi(rev, q, 1000)) /\ near(F, Fi(half, q, 1000)) /\ near(dbl, twice)
      /\ \A k \in 1..n : Abs(FitRes(ev(a), px(a, q, 1000), k)) <= 3

Law ==
  CASE What = "stokes" -> StokesLaw
    [] What = "families" -> FamiliesLaw
    [] What = "rebin" -> BinLaw(RebinSrc, RebinDim, 2, TRUE)
    [] What = "plain" -> BinLaw(PlainSrc, PlainDim, 1, FALSE)
    [] What = "demosaic" -> DemosaicLaw
    [] What = "shift" -> ShiftLaw
    [] What = "turn" -> TurnLaw
    [] What = "congrid" -> CongridLaw
    [] What = "roi" -> RoiLaw
    [] What = "angle" -> AngleLaw
    [] What = "line" -> LineLaw
    [] What = "median" -> MedianLaw
    [] What = "dark" -> DarkLaw
    [] What = "decode" -> DecodeLaw
    [] What = "norm" -> NormLaw
    [] What = "sqrt" -> SqrtLaw
    [] What = "time" -> TimeLaw
    [] What = "phase" -> PhaseLaw
    [] What = "fallback" -> FallbackLaw
    [] What = "occulter" -> OcculterLaw
    [] What = "ifov" -> IfovLaw
    [] What = "cwl" -> CwlLaw
    [] What = "keywords" -> KeywordsLaw
    [] What = "clean" -> CleanLaw
    [] What = "scene" -> SceneLaw
    [] What = "cwlcalib" -> CwlCalibLaw
    [] What = "disc" -> DiscLaw
    [] What = "stats" -> StatsLaw
    [] What = "fisher" -> FisherLaw
    [] What = "hist" -> HistLaw
    [] OTHER -> FALSE

Init == cf \in Configs
Next == UNCHANGED cf
Spec == Init /\ [][Next]_cf
=============================================================================
