----------------------------- MODULE StoreTrace -----------------------------
(* Judging one recorded step of a session: e carries the operation, its      *)
(* outcome ("ok" or "err") and the projection e.post of every living image   *)
(* afterwards, plus e.share, the pairs of images found to share memory.      *)
EXTENDS Store

Obs == {"k", "d", "ang", "S", "D"}       \* observed value of an image (hdr: as a set)
HdrSet(h) == {<<h[i][1], h[i][2]>> : i \in 1..Len(h)}
SameObs(a, b) == (\A f \in Obs : a[f] = b[f]) /\ HdrSet(a.hdr) = HdrSet(b.hdr)
                 /\ a.h = b.h /\ a.w = b.w /\ a.n1 = b.n1 /\ a.n2 = b.n2
Names(e) == {e.post[i].id : i \in 1..Len(e.post)}
PostRec(e, n) == LET i == CHOOSE i \in 1..Len(e.post) : e.post[i].id = n IN e.post[i]

\* the property an operation belongs to
Tag(e, st) ==
  LET kind == IF "a" \in DOMAIN e THEN st[e.a].k ELSE "mic" IN
  CASE e.op \in {"new", "newimg"} -> "C01"
    [] e.op \in {"copy", "imgcopy"} -> "C09"
    [] e.op \in {"arith", "arithn"} -> "C08"
    [] e.op = "rebin" -> IF kind = "mic" THEN "C04" ELSE "C05"
    [] e.op = "shift" -> "C07"
    [] e.op = "congrid" -> "C22"
    [] e.op = "rotate" -> "C23"
    [] e.op \in {"clean", "ifov"} -> "C27"
    [] e.op = "demod" -> "C18"
    [] e.op = "demosaic" -> "C06"
    [] e.op \in {"dark", "flat"} -> "C11"
    [] e.op = "mask" -> "C17"
    [] e.op = "save" -> "C13"
    [] OTHER -> "C09"
\* operations whose Stokes vector must be the theoretical one of the result
Recomputes(e) == e.op \notin {"mask", "congrid", "rotate", "demod", "pokeS", "poked", "pokeD", "pokeh", "setdata"}

StokesOK(e, st, r, exp) ==
  IF e.op = "congrid"
  THEN LET a == st[e.a] ny == EvenBelow(e.ny) nx == EvenBelow(e.nx) IN
       Len(r.S) = 3 /\ \A c \in 1..3 : IsCongrid(r.S[c], a.S[c], ny, nx, 1)
  ELSE EqS(r.S, exp.S)

SizeOK(r) == LET w == IF H(r.d) = 0 THEN r.w ELSE W(r.d) IN r.h = H(r.d) /\ r.w = w /\ r.n2 = H(r.d) /\ r.n1 = w

StoreFails(st, dflt, e) ==
  LET x == Apply(st, dflt, e)
      t == Tag(e, st)
      target == IF Changes(x) THEN {e.id} ELSE {}
      gone == IF e.op = "drop" THEN {e.id} ELSE {}
      ids == Names(e)
  IN
  IF x.err /\ e.st = "ok" THEN {t \o ".not-refused"}
  ELSE IF ~x.err /\ e.st # "ok" THEN {t \o ".unexpected-error"}
  ELSE IF ids # (DOMAIN st \cup target) \ gone THEN {t \o ".images"}
  ELSE
  UNION {IF n \in DOMAIN st /\ n \notin target /\ ~SameObs(PostRec(e, n), st[n])
         THEN {"C09.other-image-changed"} ELSE {} : n \in ids}
  \cup UNION {Chk(SizeOK(PostRec(e, n)), "C10.size") : n \in ids}
  \cup Chk(e.share = <<>>, "C09.shared")
  \cup (IF target = {} THEN {} ELSE
        LET r == PostRec(e, e.id) exp == x.r IN
        IF r.k # exp.k THEN {t \o ".kind"} ELSE
        Chk(EqG(r.d, exp.d), t \o ".pixels")
        \cup Chk(r.ang = exp.ang, "C02.map")
        \cup (IF StokesOK(e, st, r, exp) THEN {} ELSE {t \o ".stokes"} \cup (IF Recomputes(e) THEN {"C10.stokes"} ELSE {}))
        \cup (IF EqS(r.D, exp.D) THEN {} ELSE {t \o ".demosaiced", "C10.demosaiced"})
        \cup (IF e.op \in {"arith", "arithn", "copy", "pokeh"} /\ r.k = "mic"
              THEN Chk(HdrSet(r.hdr) = HdrSet(exp.hdr), t \o ".header") ELSE {}))

\* the store the next step is judged against: what was observed, with the ghosts
Observed(st, dflt, e) ==
  LET x == Apply(st, dflt, e)
      ghost(n) == IF Changes(x) /\ e.id = n THEN x.r ELSE st[n]
      known == {n \in Names(e) : n \in DOMAIN st \/ (Changes(x) /\ e.id = n)}
      rec(n) == LET p == PostRec(e, n) g == ghost(n) IN
                [k |-> p.k, d |-> p.d, ang |-> p.ang, S |-> p.S, D |-> p.D, hdr |-> p.hdr,
                 h |-> p.h, w |-> p.w, n1 |-> p.n1, n2 |-> p.n2,
                 mode |-> g.mode, theo |-> g.theo]
  IN  [n \in known |-> rec(n)]

\* can later steps be judged against this observation at all?
Usable(e) ==
  \A i \in 1..Len(e.post) :
    LET r == e.post[i] IN
    /\ r.k \in {"mic", "img"} /\ IsRect(r.d) /\ CleanG(r.d) /\ H(r.d) > 0
    /\ r.k = "mic" =>
         /\ Splittable(r.d) /\ Len(r.ang) = 4 /\ IsAngleMap(r.ang)
         /\ Len(r.S) = 3 /\ CleanS(r.S) /\ \A c \in 1..3 : IsRect(r.S[c]) /\ H(r.S[c]) > 0 /\ SameShape(r.S[c], r.S[1])
         /\ Len(r.D) \in {0, 4} /\ \A c \in 1..Len(r.D) : IsShape(r.D[c], H(r.d), W(r.d)) /\ CleanG(r.D[c])
=============================================================================
