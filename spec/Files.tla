-------------------------------- MODULE Files --------------------------------
(* A folder of image files and the images loaded from and saved to it        *)
(* (C12 - C15).  The state s is a record                                     *)
(*   fs   function from paths <<folder, stem, extension>> to contents:       *)
(*        [t |-> "fits", px |-> grid (scale q), cards |-> set of <<key, v>>] *)
(*        [t |-> "raw", b |-> 16-bit values in file order]                   *)
(*        [t |-> "junk"]    (anything else; "dir": a folder of that name)    *)
(*   im   images in memory: [k, px, ang, cards, dm] (dm: how demosaiced)     *)
(* FApply(s, e) is the effect of operation e, or an error, in which case     *)
(* nothing changes.                                                          *)
EXTENDS Polar

FQ == 24                           \* scale of pixels: halves, thirds, quarters and eighths are integers
Fits(px, cs) == [t |-> "fits", px |-> px, cards |-> cs]
Raw(b) == [t |-> "raw", b |-> b]
FEmpty == [x \in {} |-> 0]
HasFile(s, p) == p \in DOMAIN s.fs
IsFits(s, p) == HasFile(s, p) /\ s.fs[p].t = "fits"
IsRaw(s, p) == HasFile(s, p) /\ s.fs[p].t = "raw"
Blocked(s, p) == HasFile(s, p) /\ s.fs[p].t = "dir"          \* a folder of that name: nothing can be written there
Folder(s, d) == d = "" \/ \E p \in DOMAIN s.fs : p[1] = d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
PutAll(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
SetCard(cs, k, v) == {c \in cs : c[1] # k} \cup {<<k, v>>}

Plus(a, b) == LET f(x, y) == x + y IN MapG2(a, b, f)
RECURSIVE SumOf(_, _)
SumOf(g, ps) == IF Len(ps) = 1 THEN g[ps[1]].px ELSE Plus(SumOf(g, SubSeq(ps, 1, Len(ps) - 1)), g[ps[Len(ps)]].px)
RawGrid(b, h, w) == LET f(y, x) == FQ * b[y * w + x + 1] IN Mk(h, w, f)
RawOf(g) == [n \in 1..(H(g) * W(g)) |-> (Px(g, (n - 1) \div W(g), (n - 1) % W(g)) \div FQ)]
DivAll(g, n) == LET f(v) == TruncDiv(v, n) IN MapG(g, f)
DivS(t) == [i \in 1..Len(t) |-> DivAll(t[i], 4)]
AllDiv(g, n) == \A y \in 1..H(g) : \A x \in 1..W(g) : g[y][x] % n = 0
Clipped(g, r) == IF r = <<>> THEN g ELSE LET f(v) == Min2(Max2(v, FQ * r[1]), FQ * r[2]) IN MapG(g, f)
Planes(i) == IF i.dm = "" THEN Split(i.px) ELSE DivS(Demosaic(i.px, i.dm))
StokesOf(i, n) == LET t == TheoStokes(Planes(i), i.ang) IN DivAll(t[n], 2)
PolNames == <<"POL0", "POL45", "POL-45", "POL90">>
Member(p, tag) == <<p[1], p[2] \o "_" \o tag, "fits">>

FErr == [err |-> TRUE]
FOk(s) == [err |-> FALSE, s |-> s]
SetFs(s, f) == FOk([s EXCEPT !.fs = f])
SetIm(s, n, r) == FOk([s EXCEPT !.im = Put(s.im, n, r)])
NewImage(k, px, ang, cs) == [k |-> k, px |-> px, ang |-> ang, cards |-> cs, dm |-> ""]

FApply(s, e) ==
  CASE e.op = "fmake" -> SetIm(s, e.id, NewImage(e.k, e.px, e.ang, {<<c[1], c[2]>> : c \in {e.cards[i] : i \in 1..Len(e.cards)}}))
    [] e.op = "fload" ->
         IF e.ps = <<>> \/ \E i \in 1..Len(e.ps) : ~IsFits(s, e.ps[i]) THEN FErr
         ELSE LET n == Len(e.ps) t == SumOf(s.fs, e.ps)
                  px == IF e.avg THEN DivAll(t, n) ELSE t
                  cs == IF n = 1 THEN s.fs[e.ps[1]].cards ELSE SetCard(s.fs[e.ps[1]].cards, "SUMOF", ToString(n))
              IN  IF e.k = "mic" /\ ~Splittable(px) THEN FErr
                  ELSE SetIm(s, e.id, NewImage(e.k, px, e.ang, cs))
    [] e.op = "fsave" ->
         IF e.p[3] # "fits" \/ Blocked(s, e.p) THEN FErr
         ELSE SetFs(s, Put(s.fs, e.p, Fits(Clipped(s.im[e.id].px, e.fix), s.im[e.id].cards)))
    [] e.op = "fsaveraw" ->
         IF e.p[3] # "raw" \/ Blocked(s, e.p) \/ ~Folder(s, e.p[1]) THEN FErr
         ELSE SetFs(s, Put(s.fs, e.p, Raw(RawOf(s.im[e.id].px))))
    [] e.op = "fparam" ->       \* one of I, Q, U
         IF e.p[3] # "fits" THEN FErr
         ELSE SetFs(s, Put(s.fs, Member(e.p, e.par),
                           Fits(Clipped(StokesOf(s.im[e.id], CASE e.par = "I" -> 1 [] e.par = "Q" -> 2 [] OTHER -> 3), e.fix), s.im[e.id].cards)))
    [] e.op = "fpols" ->        \* the four single polarizations
         IF e.p[3] # "fits" THEN FErr
         ELSE LET i == s.im[e.id] sp == Split(i.px)
                  new == [q \in {Member(e.p, PolNames[n]) : n \in 1..4} |->
                            LET n == CHOOSE m \in 1..4 : q = Member(e.p, PolNames[m]) IN Fits(Clipped(sp[i.ang[n] + 1], e.fix), i.cards)]
              IN  SetFs(s, PutAll(s.fs, new))
    [] e.op = "fdemo" ->        \* the four demosaiced images
         LET i == s.im[e.id] IN
         IF i.dm = "" \/ e.p[3] # "fits" THEN FErr
         ELSE LET dm == Planes(i)
                  new == [q \in {Member(e.p, PolNames[n]) : n \in 1..4} |->
                            LET n == CHOOSE m \in 1..4 : q = Member(e.p, PolNames[m]) IN Fits(Clipped(dm[i.ang[n] + 1], e.fix), i.cards)]
              IN  SetFs(s, PutAll(s.fs, new))
    [] e.op = "fdemosaic" -> SetIm(s, e.id, [s.im[e.id] EXCEPT !.dm = e.mode])
    [] e.op = "fadd" ->
         LET a == s.im[e.a] b == s.im[e.b] IN
         IF H(a.px) # H(b.px) \/ W(a.px) # W(b.px) THEN FErr
         ELSE SetIm(s, e.id, IF a.k = "mic" THEN [a EXCEPT !.px = Plus(a.px, b.px)] ELSE NewImage("img", Plus(a.px, b.px), <<>>, {}))
    [] e.op = "fconvert" ->
         IF e.p[3] # "raw" \/ ~IsRaw(s, e.p) \/ Len(s.fs[e.p].b) < e.h * e.w \/ Blocked(s, <<e.p[1], e.p[2], "fits">>) THEN FErr
         ELSE LET f == Put(s.fs, <<e.p[1], e.p[2], "fits">>, Fits(RawGrid(s.fs[e.p].b, e.h, e.w), {}))
              IN  SetFs(s, IF e.remove THEN Without(f, e.p) ELSE f)
    [] e.op = "fmerge" ->
         IF e.p[3] # "fits" \/ Blocked(s, e.p) \/ ~Folder(s, e.p[1]) \/ \E i \in 1..Len(e.ps) : ~IsRaw(s, e.ps[i]) \/ Len(s.fs[e.ps[i]].b) < e.h * e.w THEN FErr
         ELSE LET g == [q \in {e.ps[i] : i \in 1..Len(e.ps)} |-> [px |-> RawGrid(s.fs[q].b, e.h, e.w)]]
                  t == SumOf(g, e.ps)
              IN  SetFs(s, Put(s.fs, e.p, Fits(IF e.avg THEN DivAll(t, Len(e.ps)) ELSE t, {})))
    \* the user
    [] e.op = "fputraw" -> SetFs(s, Put(s.fs, e.p, Raw(e.b)))
    [] e.op = "fdir" -> SetFs(s, Put(s.fs, e.p, [t |-> "dir"]))
    [] e.op = "fdelete" -> SetFs(s, Without(s.fs, e.p))
    [] e.op = "fdrop" -> FOk([s EXCEPT !.im = Without(s.im, e.id)])
    [] OTHER -> FOk(s)

\* results are integers at this scale
FExact(s, e) ==
  CASE e.op = "fload" /\ e.avg /\ (\A i \in 1..Len(e.ps) : IsFits(s, e.ps[i])) /\ e.ps # <<>> -> AllDiv(SumOf(s.fs, e.ps), Len(e.ps))
    [] e.op = "fmerge" /\ e.avg /\ (\A i \in 1..Len(e.ps) : IsRaw(s, e.ps[i]) /\ Len(s.fs[e.ps[i]].b) >= e.h * e.w) ->
         AllDiv(SumOf([q \in {e.ps[i] : i \in 1..Len(e.ps)} |-> [px |-> RawGrid(s.fs[q].b, e.h, e.w)]], e.ps), Len(e.ps))
    [] e.op = "fsaveraw" -> AllDiv(s.im[e.id].px, FQ) /\ \A y \in 1..H(s.im[e.id].px) : \A x \in 1..W(s.im[e.id].px) : s.im[e.id].px[y][x] >= 0
    [] e.op = "fparam" -> LET i == s.im[e.id] IN
         /\ (i.dm # "" => \A n \in 1..4 : AllDiv(Demosaic(i.px, i.dm)[n], 4)) /\ \A n \in 1..3 : AllDiv(TheoStokes(Planes(i), i.ang)[n], 2)
    [] e.op \in {"fdemo", "fdemosaic"} -> LET i == s.im[e.id] m == IF e.op = "fdemo" THEN i.dm ELSE e.mode IN
         m # "" => \A n \in 1..4 : AllDiv(Demosaic(i.px, m)[n], 4)
    [] OTHER -> TRUE

\* the paths an operation may write to or remove
Targets(e) ==
  CASE e.op \in {"fsave", "fsaveraw", "fmerge", "fputraw", "fdir", "fdelete"} -> {e.p}
    [] e.op = "fparam" -> {Member(e.p, e.par)}
    [] e.op \in {"fpols", "fdemo"} -> {Member(e.p, PolNames[n]) : n \in 1..4}
    [] e.op = "fconvert" -> {e.p, <<e.p[1], e.p[2], "fits">>}
    [] OTHER -> {}

(* ---- interrupted operations: the process was killed, or the disk refused to take more ---- *)
NothingLost(raw, fits, raw0, whole) == raw = raw0 \/ fits = whole
(* e.raw0: 16-bit values of the raw files before; e.raw: afterwards (<<>> if the file is gone);  *)
(* e.fits: what the FITS file holds (grid, <<>> if there is none or it is not readable);         *)
(* e.others: other files unchanged; e.st: "ok", "err" or "killed"                                *)
CutFails(e) ==
  LET g == [n \in 1..Len(e.raw0) |-> [px |-> RawGrid(e.raw0[n], e.h, e.w)]]
      t == SumOf(g, [n \in 1..Len(e.raw0) |-> n])
      whole == IF e.avg THEN DivAll(t, Len(e.raw0)) ELSE t
  IN  Chk(\A n \in 1..Len(e.raw0) : NothingLost(e.raw[n], e.fits, e.raw0[n], whole), "C15.lost")
      \cup Chk(e.remove \/ e.raw = e.raw0, "C15.raw-changed")
      \cup Chk(e.st = "ok" => e.fits = whole, "C15.incomplete")
      \cup Chk((e.st = "ok" /\ e.remove) => \A n \in 1..Len(e.raw0) : e.raw[n] = <<>>, "C15.not-removed")
      \cup Chk(e.others, "C15.other-file-changed")

(* ---- judging one recorded step: e.fs and e.im are what was found afterwards ---- *)
FTag(e) == CASE e.op = "fload" -> "C12" [] e.op \in {"fparam", "fpols", "fdemo", "fdemosaic"} -> "C14"
             [] e.op \in {"fconvert", "fmerge", "fsaveraw"} -> "C15" [] e.op = "fadd" -> "C08" [] e.op = "fmake" -> "C09" [] OTHER -> "C13"
CardSet(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
FoundPaths(e) == {e.fs[i].p : i \in 1..Len(e.fs)}
FoundAt(e, p) == LET i == CHOOSE i \in 1..Len(e.fs) : e.fs[i].p = p IN e.fs[i]
ContentOf(r) == IF r.t = "fits" THEN Fits(r.px, CardSet(r.cards)) ELSE IF r.t = "raw" THEN Raw(r.b) ELSE [t |-> r.t]
SameContent(r, c) ==
  /\ r.t = c.t
  /\ r.t = "fits" => EqG(r.px, c.px) /\ CardSet(r.cards) = c.cards
  /\ r.t = "raw" => r.b = c.b
FoundIm(e) == {e.im[i].id : i \in 1..Len(e.im)}
ImAt(e, n) == LET i == CHOOSE i \in 1..Len(e.im) : e.im[i].id = n IN e.im[i]
SameImage(r, c) == r.k = c.k /\ EqG(r.px, c.px) /\ r.ang = c.ang /\ CardSet(r.cards) = c.cards /\ r.dm = (c.dm # "")
FFails(s, e) ==
  LET x == FApply(s, e) t == FTag(e) IN
  IF x.err /\ e.st = "ok" THEN {t \o ".not-refused"}
  ELSE IF ~x.err /\ e.st # "ok" THEN {t \o ".unexpected-error"}
  ELSE LET s2 == IF x.err THEN s ELSE x.s IN
  Chk(FoundPaths(e) = DOMAIN s2.fs, t \o ".files")
  \cup Chk(\A p \in FoundPaths(e) \cap DOMAIN s2.fs : SameContent(FoundAt(e, p), s2.fs[p]), t \o ".content")
  \cup Chk(FoundIm(e) = DOMAIN s2.im, t \o ".images")
  \cup Chk(\A n \in FoundIm(e) \cap DOMAIN s2.im : SameImage(ImAt(e, n), s2.im[n]), t \o ".image")
FAfter(s, e) == LET x == FApply(s, e) IN IF x.err THEN s ELSE x.s
=============================================================================
