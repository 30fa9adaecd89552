------------------------------- MODULE MCFiles -------------------------------
(* The file sessions the specification allows, exhaustively to a depth and   *)
(* by random walks; the walks ("SCHED") are replayed on the library in a     *)
(* scratch folder and judged by Trace.tla.                                   *)
EXTENDS Files, Json
CONSTANTS Depth, Kinds, Big, Emit
VARIABLES s, kind, hist, num, last
vars == <<s, kind, hist, num, last>>

GridOf(h, w, F(_,_)) == LET f(y, x) == FQ * F(y, x) IN Mk(h, w, f)
IdF(y, x) == 8 * (4 * y + x + 1)
NegF(y, x) == 40 * (((y * 5 + x * 3) % 7) - 3)
PatF(y, x) == 12 * ((y * 3 + x * 5) % 8)
Shp == IF Big THEN {<<4, 4>>, <<2, 4>>, <<2, 2>>} ELSE {<<2, 2>>}
PlainShp == IF Big THEN {<<4, 4>>, <<3, 5>>, <<2, 2>>} ELSE {<<2, 2>>}
Maps == {<<0, 1, 2, 3>>, <<3, 1, 2, 0>>, <<1, 3, 0, 2>>}
Stems == IF Big THEN {"a", "b.c"} ELSE {"a"}
Dirs == IF Big THEN {"", "sub"} ELSE {""}
Paths(x) == {<<d, t, x>> : d \in Dirs, t \in Stems}
FitsP == Paths("fits")
RawP == Paths("raw")
Known(x) == {p \in DOMAIN s.fs : p[3] = x}
CardsSets == {<<>>, << <<"AAA", "1">>, <<"BBB", "'x y'">> >>}
RawB(k, n) == [i \in 1..n |-> IF k = 1 THEN i * 7 ELSE IF k = 2 THEN 65536 - i ELSE 0]
Lists(P) == IF P = {} THEN {} ELSE {<<p>> : p \in P} \cup {<<p, q>> : p \in P, q \in P} \cup (IF Big THEN {<<p, q, r>> : p \in P, q \in P, r \in P} ELSE {})
I == DOMAIN s.im
Mics == {n \in I : s.im[n].k = "mic"}
NewId == "i" \o ToString(num)
Mx(g) == LET v == {Abs(g[y][x]) : y \in 1..H(g), x \in 1..W(g)} IN CHOOSE m \in v : \A o \in v : o <= m
Fixes == {<<>>, <<0, 50>>, <<-20, 30>>}
SameShapes(ps) == LET g(i) == s.fs[ps[i]].px IN \A i \in 1..Len(ps) : IsFits(s, ps[i]) => (IsFits(s, ps[1]) => H(g(i)) = H(g(1)) /\ W(g(i)) = W(g(1)))

OpsOf(k) ==
  CASE k = "make" -> {[op |-> "fmake", id |-> NewId, k |-> "mic", px |-> g, ang |-> a, cards |-> c] :
                       g \in UNION {{GridOf(z[1], z[2], IdF), GridOf(z[1], z[2], NegF), GridOf(z[1], z[2], PatF)} : z \in Shp}, a \in Maps, c \in CardsSets}
    [] k = "makeimg" -> {[op |-> "fmake", id |-> NewId, k |-> "img", px |-> GridOf(z[1], z[2], IdF), ang |-> <<>>, cards |-> c] : z \in PlainShp, c \in CardsSets}
    [] k = "load" -> {e \in {[op |-> "fload", id |-> NewId, k |-> kk, ps |-> ps, avg |-> v, ang |-> IF kk = "mic" THEN a ELSE <<>>] :
                               kk \in {"mic", "img"}, ps \in Lists(Known("fits")), v \in BOOLEAN, a \in Maps} : SameShapes(e.ps)}
    [] k = "loadbad" -> {[op |-> "fload", id |-> NewId, k |-> "img", ps |-> ps, avg |-> TRUE, ang |-> <<>>] :
                          ps \in {<<>>} \cup {<<p>> : p \in (FitsP \cup RawP) \ Known("fits")}
                                 \cup {<<q, p>> : q \in Known("fits"), p \in FitsP \ Known("fits")}}
    [] k = "save" -> {[op |-> "fsave", id |-> n, p |-> p, fix |-> f] : n \in I, p \in FitsP, f \in Fixes}
    [] k = "savebad" -> {[op |-> "fsave", id |-> n, p |-> p, fix |-> <<>>] : n \in I, p \in RawP}
                        \cup {[op |-> "fsaveraw", id |-> n, p |-> p] : n \in I, p \in FitsP}
    [] k = "saveraw" -> {[op |-> "fsaveraw", id |-> n, p |-> p] : n \in I, p \in RawP}
    [] k = "param" -> {[op |-> "fparam", id |-> n, p |-> p, par |-> r, fix |-> f] : n \in Mics, p \in FitsP, r \in {"I", "Q", "U"}, f \in Fixes}
    [] k = "pols" -> {[op |-> "fpols", id |-> n, p |-> p, fix |-> f] : n \in Mics, p \in FitsP, f \in Fixes}
    [] k = "demo" -> {[op |-> "fdemo", id |-> n, p |-> p, fix |-> f] : n \in Mics, p \in FitsP, f \in Fixes}
    [] k = "demosaic" -> {[op |-> "fdemosaic", id |-> n, mode |-> m] : n \in Mics, m \in {"adjacent", "mean"}}
    [] k = "add" -> {e \in {[op |-> "fadd", a |-> n, b |-> m, id |-> NewId] : n \in I, m \in I} :
                      s.im[e.a].k = s.im[e.b].k /\ (s.im[e.a].k = "mic" => s.im[e.a].dm = s.im[e.a].dm)
                      /\ H(s.im[e.a].px) = H(s.im[e.b].px) /\ W(s.im[e.a].px) = W(s.im[e.b].px)}
    [] k = "convert" -> {[op |-> "fconvert", p |-> p, h |-> z[1], w |-> z[2], remove |-> r] :
                          p \in {q \in RawP : IsRaw(s, q)}, r \in BOOLEAN, z \in {<<2, 2>>, <<1, 4>>, <<4, 4>>, <<3, 5>>}}
                        \cup {[op |-> "fconvert", p |-> p, h |-> 2, w |-> 2, remove |-> TRUE] : p \in FitsP \cup RawP}
    [] k = "merge" -> {[op |-> "fmerge", ps |-> ps, p |-> p, h |-> 2, w |-> z, avg |-> v] :
                        ps \in Lists({q \in RawP : IsRaw(s, q)}), p \in FitsP, z \in {2}, v \in BOOLEAN}
                      \cup {[op |-> "fmerge", ps |-> <<q>>, p |-> p, h |-> 2, w |-> 2, avg |-> FALSE] : q \in {r \in RawP : IsRaw(s, r)}, p \in RawP}
    [] k = "putraw" -> {[op |-> "fputraw", p |-> p, b |-> RawB(j, n)] : p \in {q \in RawP : ~Blocked(s, q)}, j \in 1..3, n \in IF Big THEN {4, 15, 16, 3} ELSE {4, 3}}
    [] k = "dir" -> {[op |-> "fdir", p |-> p] : p \in (FitsP \cup RawP) \ DOMAIN s.fs}
    [] k = "delete" -> {[op |-> "fdelete", p |-> p] : p \in DOMAIN s.fs}
    [] k = "drop" -> {[op |-> "fdrop", id |-> n] : n \in {m \in I : Cardinality(I) > 1}}
    [] OTHER -> {}
\* exact at this scale, and raw files of exactly the size asked for (or too short)
Legal(e) ==
  /\ FExact(s, e)
  /\ e.op = "fconvert" => (IsRaw(s, e.p) => Len(s.fs[e.p].b) <= e.h * e.w)
  /\ e.op = "fmerge" => \A i \in 1..Len(e.ps) : IsRaw(s, e.ps[i]) => Len(s.fs[e.ps[i]].b) <= e.h * e.w
  /\ e.op \in {"fsaveraw"} => Mx(s.im[e.id].px) < 65536 * FQ
Step(e) ==
  LET x == FApply(s, e) IN
  /\ (~x.err => \A n \in DOMAIN x.s.im : Mx(x.s.im[n].px) < 8000000)
  /\ s' = (IF x.err THEN s ELSE x.s)
  /\ hist' = (IF Emit THEN Append(hist, e) ELSE Append(hist, [op |-> e.op]))
  /\ last' = [e |-> e, err |-> x.err]
  /\ num' = num + 1
None == [e |-> [op |-> "none"], err |-> FALSE]
Pick == /\ kind = "" /\ Len(hist) < Depth
        /\ LET ks == IF I = {} THEN {"make", "makeimg", "putraw"} ELSE IF Cardinality(I) >= 4 THEN {"drop"} ELSE Kinds
           IN  kind' \in (IF Emit THEN {RandomElement(ks)} ELSE ks)
        /\ last' = None /\ UNCHANGED <<s, hist, num>>
Do == /\ kind \notin {"", "end"} /\ LET ops == {e \in OpsOf(kind) : Legal(e)} IN
           ops # {} /\ \E e \in (IF Emit THEN {RandomElement(ops)} ELSE ops) : Step(e)
      /\ kind' = ""
Skip == /\ kind \notin {"", "end"} /\ {e \in OpsOf(kind) : Legal(e)} = {} /\ kind' = "" /\ UNCHANGED <<s, hist, num, last>>
Done == /\ kind = "" /\ Len(hist) = Depth /\ UNCHANGED <<s, hist, num, last>> /\ kind' = "end"
        /\ (Emit => PrintT("SCHED " \o ToJson(hist)))
Init == s = [fs |-> FEmpty, im |-> FEmpty] /\ kind = "" /\ hist = <<>> /\ num = 1 /\ last = None
Next == Pick \/ Do \/ Skip \/ Done
Spec == Init /\ [][Next]_vars
View == <<s, kind, Len(hist)>>

Types == /\ \A n \in I : IsRect(s.im[n].px) /\ (s.im[n].k = "mic" => Splittable(s.im[n].px) /\ IsAngleMap(s.im[n].ang))
         /\ \A p \in DOMAIN s.fs : s.fs[p].t \in {"fits", "raw", "dir"} /\ (s.fs[p].t = "fits" => IsRect(s.fs[p].px))
\* an operation writes and removes nothing but its targets; a failed one nothing at all
OnlyTargets == [][\A p \in DOMAIN s.fs \cup DOMAIN s'.fs :
                   (p \notin DOMAIN s.fs \/ p \notin DOMAIN s'.fs \/ s.fs[p] # s'.fs[p]) => ~last'.err /\ p \in Targets(last'.e)]_vars
\* raw pixels disappear only into the FITS file of the same name (or by the user)
RawKept == [][\A p \in DOMAIN s.fs : (s.fs[p].t = "raw" /\ p \notin DOMAIN s'.fs) =>
                 \/ last'.e.op = "fdelete"
                 \/ LET q == <<p[1], p[2], "fits">> IN
                    q \in DOMAIN s'.fs /\ s'.fs[q].t = "fits" /\ RawOf(s'.fs[q].px) = s.fs[p].b]_vars
\* loading what was saved gives the saved image
RoundTrip == [][(last'.e.op = "fsave" /\ ~last'.err /\ last'.e.fix = <<>>) =>
                 LET e == last'.e i == s.im[e.id]
                     x == FApply(s', [op |-> "fload", id |-> "t", k |-> i.k, ps |-> <<e.p>>, avg |-> TRUE, ang |-> i.ang])
                 IN  ~x.err /\ EqG(x.s.im["t"].px, i.px) /\ x.s.im["t"].cards = i.cards]_vars
Frozen == [][\A n \in I \cap DOMAIN s'.im : s.im[n] # s'.im[n] => last'.e.op \in {"fdemosaic"}]_vars
=============================================================================
