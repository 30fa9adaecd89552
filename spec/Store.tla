------------------------------- MODULE Store -------------------------------
(* The living images of a session and what every operation of the library    *)
(* does to them.  An image is a value: a record                              *)
(*   k     "mic" (micropolarizer image) or "img" (plain image)               *)
(*   d     pixels, scale q                                                   *)
(*   ang   <<f0,f45,f_45,f90>> family holding each polarizer angle            *)
(*   S     Stokes vector, three grids, scale 8q                              *)
(*   D     demosaiced images, four grids, scale 4q (<<>> if not demosaiced)  *)
(*   hdr   the user's header cards, a sequence of <<key, value>>             *)
(*   mode  how it was demosaiced last (ghost, "adjacent" initially)          *)
(*   theo  (ghost) S is the theoretical vector of the present pixels         *)
(* plus the observed h, w, n1, n2 (size attributes and header size cards).   *)
(*                                                                           *)
(* Apply(st, dflt, e) is the effect of operation e on store st (a function   *)
(* from image names to records) with default orientation map dflt: the       *)
(* record it gives to the image e.id it creates or changes, the new default, *)
(* or an error, in which case nothing changes.  The same operator drives     *)
(*   - the trace specification (Trace.tla): recorded executions,             *)
(*   - the model (MCStore.tla): exhaustive and random histories, the latter  *)
(*     being replayed on the implementation.                                 *)
EXTENDS Polar

Demosaiced(r) == r.D # <<>>
Theo(r) == IF Demosaiced(r) THEN TheoStokes(r.D, r.ang)
           ELSE LET t == TheoStokes(Split(r.d), r.ang) IN [c \in 1..3 |-> ScaleG(t[c], 4)]
\* new pixels: demosaiced images and Stokes vector follow
WithPixels(r, d2) ==
  LET D2 == IF Demosaiced(r) THEN Demosaic(d2, r.mode) ELSE <<>>
      r2 == [r EXCEPT !.d = d2, !.D = D2, !.theo = TRUE]
  IN  [r2 EXCEPT !.S = Theo(r2)]
NewMic(d, ang, hdr) ==
  LET r == [k |-> "mic", d |-> d, ang |-> ang, S |-> <<>>, D |-> <<>>, hdr |-> hdr,
            mode |-> "adjacent", theo |-> TRUE]
  IN  [r EXCEPT !.S = Theo(r)]
NewImg(d, hdr) == [k |-> "img", d |-> d, ang |-> <<>>, S |-> <<>>, D |-> <<>>, hdr |-> hdr,
                   mode |-> "adjacent", theo |-> FALSE]

(* ---- pixel arithmetic: e.fn, second operand an image (o(y,x)) or number -- *)
\* exact division of integers at the same scale (the recorder only divides evenly)
DivE(a, b) == IF b = 0 THEN 0 ELSE TruncDiv(a, b)
ArithD(fn, a, o(_,_)) ==
  LET f(y, x) == CASE fn = "add" -> Px(a, y, x) + o(y, x)
                   [] fn = "sub" -> Px(a, y, x) - o(y, x)
                   [] fn = "mul" -> Px(a, y, x) * o(y, x)      \* o unscaled
                   [] OTHER -> DivE(Px(a, y, x), o(y, x))      \* o unscaled
  IN  Mk(H(a), W(a), f)

FlatD(a, f) ==
  LET m == SumG(f) \div (H(f) * W(f))       \* the recorder uses flats with such a mean only
      p(y, x) == IF Px(f, y, x) = 0 THEN Px(a, y, x)
                 ELSE TruncDiv(Px(a, y, x) * m, Px(f, y, x))
  IN  Mk(H(a), W(a), p)

(* ---- demodulation: M scale 2, flags 0/1 or <<>> ---- *)
DemodS(M, flags, planes, ang, dbl) ==      \* dbl: planes at full resolution, scale 4q
  LET at(g, y, x) == IF dbl THEN Px(g, y \div 2, x \div 2) ELSE Px(g, y, x)
      k == IF dbl THEN 1 ELSE 4
      t == TheoStokes(planes, ang)
  IN  [c \in 1..3 |->
        LET f(y, x) ==
              LET v(j) == Px(planes[j], y, x)
                  m(i, j) == at(M[i][j], y, x)
              IN  IF flags = <<>> THEN k * DotAt(m, v, c)
                  ELSE IF at(flags, y, x) = 1 THEN k * DotAt(m, v, c) ELSE k * Px(t[c], y, x)
        IN  Mk(H(planes[1]), W(planes[1]), f)]

(* ---- effects ---- *)
Fail == [err |-> TRUE]
Make(r) == [err |-> FALSE, r |-> r]
SameSize(a, b) == H(a.d) = H(b.d) /\ W(a.d) = W(b.d)

Apply(st, dflt, e) ==
  CASE e.op = "new" -> IF Splittable(e.data)
                       THEN Make(NewMic(e.data, IF e.ang = <<>> THEN dflt ELSE e.ang, <<>>)) ELSE Fail
    [] e.op = "newimg" -> Make(NewImg(e.data, <<>>))
    [] e.op = "copy" ->
         IF st[e.a].k = "mic" THEN Make(st[e.a])
         ELSE IF Splittable(st[e.a].d)
              THEN Make(NewMic(st[e.a].d, IF e.ang = <<>> THEN dflt ELSE e.ang, <<>>)) ELSE Fail
    [] e.op = "imgcopy" -> Make(NewImg(st[e.a].d, <<>>))
    [] e.op = "arith" ->
         LET a == st[e.a] b == st[e.b]
             o(y, x) == Px(b.d, y, x) \div e.bq       \* add/sub: bq = 1; mul/div: unscaled operand
             d2 == ArithD(e.fn, a.d, o)
         IN  IF ~SameSize(a, b) THEN Fail
             ELSE Make(IF a.k = "mic" THEN WithPixels(a, d2) ELSE NewImg(d2, <<>>))
    [] e.op = "arithn" ->
         LET a == st[e.a] o(y, x) == e.n d2 == ArithD(e.fn, a.d, o)
         IN  Make(IF a.k = "mic" THEN NewMic(d2, a.ang, a.hdr) ELSE NewImg(d2, <<>>))
    [] e.op = "rebin" ->
         LET a == st[e.a] IN
         IF e.n <= 0 THEN Fail
         ELSE Make(IF a.k = "mic" THEN WithPixels(a, Rebin(a.d, e.n)) ELSE NewImg(PlainRebin(a.d, e.n), <<>>))
    [] e.op = "shift" ->
         LET a == st[e.a] IN
         Make(IF a.k = "mic" THEN WithPixels(a, ShiftMicropol(a.d, e.dy, e.dx, e.fill))
              ELSE NewImg(Shift(a.d, e.dy, e.dx, e.fill), <<>>))
    [] e.op = "congrid" ->       \* sizes such that the pixels stay integers at this scale
         LET a == st[e.a]
             ny == EvenBelow(e.ny) nx == EvenBelow(e.nx)
             my == ny \div 2 mx == nx \div 2
             f(s) == LET c == Congrid(s, my, mx) u(v) == TruncDiv(v, (my - 1) * (mx - 1)) IN MapG(c, u)
             r == WithPixels(a, BySub(a.d, f))
         IN  Make([r EXCEPT !.S = a.S, !.theo = FALSE])      \* S: resampled, see StokesOK
    [] e.op = "rotate" ->
         LET a == st[e.a]
             r == WithPixels(a, RotMicropol(a.d, e.k))
         IN  Make([r EXCEPT !.S = [c \in 1..3 |-> Rot90(a.S[c], e.k)], !.theo = a.theo /\ ~Demosaiced(a)])
    [] e.op = "clean" ->
         LET a == st[e.a] fl(y, x) == Px(st[e.b].d, y, x) = e.one IN
         IF ~SameSize(a, st[e.b]) THEN Fail ELSE Make(WithPixels(a, CleanHot(a.d, fl)))
    [] e.op = "demod" ->
         LET a == st[e.a]
             mh == H(e.M[1][1]) mw == W(e.M[1][1])
             D2 == Demosaic(a.d, "adjacent")
         IN  IF mh # H(a.d) \div 2 \/ mw # W(a.d) \div 2 THEN Fail
             ELSE IF e.ds THEN Make([a EXCEPT !.D = D2, !.mode = "adjacent", !.theo = FALSE,
                                              !.S = DemodS(e.M, e.flags, D2, a.ang, TRUE)])
             ELSE Make([a EXCEPT !.theo = FALSE, !.S = DemodS(e.M, e.flags, Split(a.d), a.ang, FALSE)])
    [] e.op = "demosaic" ->
         IF e.mode \notin DemoModes THEN Fail
         ELSE LET r == [st[e.id] EXCEPT !.D = Demosaic(st[e.id].d, e.mode), !.mode = e.mode, !.theo = TRUE]
              IN  Make([r EXCEPT !.S = Theo(r)])
    [] e.op = "dark" ->
         IF ~SameSize(st[e.id], st[e.b]) THEN Fail ELSE Make(WithPixels(st[e.id], Dark(st[e.id].d, st[e.b].d)))
    [] e.op = "flat" ->
         IF ~SameSize(st[e.id], st[e.b]) THEN Fail ELSE Make(WithPixels(st[e.id], FlatD(st[e.id].d, st[e.b].d)))
    [] e.op = "ifov" ->
         LET q4(v) == TruncDiv(v, 4) IN Make(WithPixels(st[e.id], MapG(Ifov(st[e.id].d), q4)))
    [] e.op = "mask" ->
         LET a == st[e.id] r == e.r + e.over dm == Demosaiced(a) IN
         Make([a EXCEPT !.d = MaskData(a.d, e.c, r, e.fill),
                        !.D = [k \in 1..Len(a.D) |-> MaskData(a.D[k], e.c, r, 4 * e.fill)],
                        !.S = [k \in 1..3 |-> MaskStokes(a.S[k], e.c, r, 8 * e.fill, dm)],
                        !.theo = FALSE])
    \* the user writes into an image's own arrays
    [] e.op = "poked" -> Make([st[e.id] EXCEPT !.d[e.y + 1][e.x + 1] = e.v, !.theo = FALSE])
    [] e.op = "pokeS" -> Make([st[e.id] EXCEPT !.S[e.c][e.y + 1][e.x + 1] = e.v, !.theo = FALSE])
    [] e.op = "pokeD" -> Make([st[e.id] EXCEPT !.D[e.c][e.y + 1][e.x + 1] = e.v, !.theo = FALSE])
    [] e.op = "pokeh" ->
         Make([st[e.id] EXCEPT !.hdr =
                LET other(c) == c[1] # e.key IN SelectSeq(@, other) \o <<<<e.key, e.val>>>>])
    [] e.op = "setdata" -> Make([st[e.id] EXCEPT !.d = e.data, !.theo = FALSE])
    \* nothing changes: reading, saving, writing into foreign arrays, dropping a reference
    [] OTHER -> [err |-> FALSE]

Changes(x) == ~x.err /\ "r" \in DOMAIN x
DefaultAfter(dflt, e) == IF e.op = "setdefault" /\ e.st = "ok" THEN e.ang ELSE dflt

(* ---- invariants of the specification itself ---- *)
TypeOK(r) ==
  /\ IsRect(r.d)
  /\ r.k = "mic" => /\ Splittable(r.d) /\ IsAngleMap(r.ang) /\ Len(r.S) = 3
                    /\ Len(r.D) \in {0, 4}
                    /\ \A i \in 1..Len(r.D) : IsShape(r.D[i], H(r.d), W(r.d))
Coherent(r) == (r.k = "mic" /\ r.theo) => EqS(r.S, Theo(r))
=============================================================================
