------------------------------- MODULE MCStore -------------------------------
(* The sessions the specification allows: the effects of Store.tla on a few  *)
(* small images, operations chosen freely.  Checked exhaustively to a depth, *)
(* and by random walks; the walks printed ("SCHED") are replayed on the      *)
(* library and the recorded outcome is judged by Trace.tla.                  *)
EXTENDS Store, Json
CONSTANTS Depth, Kinds, Big, Emit
VARIABLES st, dflt, kind, hist, num
vars == <<st, dflt, kind, hist, num>>

Q == 64
Lim == 2000 * Q
Mx(g) == LET s == {Abs(g[y][x]) : y \in 1..H(g), x \in 1..W(g)} IN CHOOSE m \in s : \A v \in s : v <= m
Small(g) == H(g) > 0 /\ W(g) > 0 /\ Mx(g) <= Lim
GridOf(h, w, F(_,_)) == LET f(y, x) == Q * F(y, x) IN Mk(h, w, f)
IdF(y, x) == 8 * (4 * y + x + 1)
FlagF(y, x) == (y + x * x + (y * x) \div 2) % 2
PatF(y, x) == ((y * 5 + x * 3) % 7) * 4 - 4
FlatF(y, x) == IF y = 0 /\ x = 0 THEN 0 ELSE IF y = 0 /\ x = 1 THEN 2 ELSE 1       \* mean 1
Shp == IF Big THEN {<<4, 4>>, <<2, 4>>, <<4, 6>>} ELSE {<<4, 4>>}
Datas(s) == {GridOf(s[1], s[2], IdF), GridOf(s[1], s[2], FlagF), GridOf(s[1], s[2], PatF), GridOf(s[1], s[2], FlatF)}
Maps == {<<0, 1, 2, 3>>, <<3, 1, 2, 0>>, <<1, 3, 0, 2>>}
Mats == {[i \in 1..3 |-> [j \in 1..4 |-> i * j - 5]], [i \in 1..3 |-> [j \in 1..4 |-> IF i = j THEN 2 ELSE 0]]}
Tens(m, h, w, k) == [i \in 1..3 |-> [j \in 1..4 |-> LET f(y, x) == m[i][j] + k * (y + 2 * x) IN Mk(h, w, f)]]
Flg(h, w) == LET f(y, x) == (y + x) % 2 IN Mk(h, w, f)

I == DOMAIN st
Mics == {n \in I : st[n].k = "mic"}
New == "i" \o ToString(num)
AllPx(g, P(_)) == \A y \in 1..H(g) : \A x \in 1..W(g) : P(g[y][x])
DivisibleBy(g, k) == LET p(v) == v % k = 0 IN AllPx(g, p)
DivOK(a, b) == \A y \in 1..H(a) : \A x \in 1..W(a) : b[y][x] % Q = 0 /\ (b[y][x] = 0 \/ Abs(a[y][x]) % (Abs(b[y][x]) \div Q) = 0)
MulOK(a, b) == DivisibleBy(b, Q) /\ (Mx(b) \div Q) * (Mx(a) \div Q) <= 2000
FlatOK(a, f) ==
  LET n == H(f) * W(f) m == SumG(f) \div n IN
  /\ SumG(f) % n = 0 /\ m > 0 /\ (Mx(a) \div Q) * m <= 10000
  /\ \A y \in 1..H(a) : \A x \in 1..W(a) :
       f[y][x] >= 0 /\ (f[y][x] # 0 => (f[y][x] \in {m, 2 * m, 4 * m} \/ 2 * f[y][x] = m) /\ (Abs(a[y][x]) * m) % f[y][x] = 0)
CongridOK(n, ny, nx) ==
  LET r == st[n] k == (EvenBelow(ny) \div 2 - 1) * (EvenBelow(nx) \div 2 - 1) IN
  /\ H(r.d) >= 4 /\ W(r.d) >= 4 /\ \A i \in 1..4 : LET s == SubIm(r.d, i - 1) c == Congrid(s, EvenBelow(ny) \div 2, EvenBelow(nx) \div 2)
                                                   IN  DivisibleBy(c, k)
  /\ \A c \in 1..3 : H(r.S[c]) >= 2 /\ W(r.S[c]) >= 2 /\ Mx(r.S[c]) * 30 <= 1000000000
Square(n) == H(st[n].d) = W(st[n].d) /\ H(st[n].S[1]) = W(st[n].S[1])

OpsOf(k) ==
  CASE k = "new" -> {[op |-> "new", id |-> New, data |-> d, ang |-> a] : d \in UNION {Datas(s) : s \in Shp}, a \in Maps \cup {<<>>}}
    [] k = "newodd" -> {[op |-> "new", id |-> New, data |-> GridOf(s[1], s[2], IdF), ang |-> <<>>] : s \in {<<3, 4>>, <<4, 3>>}}
    [] k = "newimg" -> {[op |-> "newimg", id |-> New, data |-> GridOf(s[1], s[2], IdF)] : s \in {<<4, 4>>, <<3, 4>>}}
    [] k = "copy" -> {[op |-> "copy", a |-> n, id |-> New, ang |-> <<>>] : n \in I}
                     \cup {[op |-> "copy", a |-> n, id |-> New, ang |-> a] : n \in I \ Mics, a \in Maps}
    [] k = "imgcopy" -> {[op |-> "imgcopy", a |-> n, id |-> New] : n \in I}
    [] k = "arith" -> {e \in {[op |-> "arith", fn |-> f, a |-> n, b |-> m, bq |-> IF f \in {"add", "sub"} THEN 1 ELSE Q, id |-> New] :
                               f \in {"add", "sub", "mul", "div"}, n \in I, m \in I} :
                         /\ st[e.a].k = st[e.b].k /\ (SameSize(st[e.a], st[e.b]) \/ (e.a \in Mics /\ H(st[e.a].d) > 2 /\ H(st[e.b].d) > 2))
                         /\ SameSize(st[e.a], st[e.b]) => (e.fn = "mul" => MulOK(st[e.a].d, st[e.b].d)) /\ (e.fn = "div" => DivOK(st[e.a].d, st[e.b].d))}
    [] k = "arithn" -> {e \in {[op |-> "arithn", fn |-> f[1], a |-> n, n |-> f[2], id |-> New] :
                                f \in {<<"add", 3 * Q>>, <<"sub", 5 * Q>>, <<"mul", 2>>, <<"mul", -1>>, <<"div", 2>>, <<"div", 0>>, <<"add", 0>>}, n \in I} :
                         e.fn = "div" => (e.n = 0 \/ DivisibleBy(st[e.a].d, e.n))}
    [] k = "rebin" -> {e \in {[op |-> "rebin", a |-> n, n |-> b, id |-> New] : n \in I, b \in {1, 2, 0}} :
                         e.n = 0 \/ (H(st[e.a].d) >= 2 * e.n /\ W(st[e.a].d) >= 2 * e.n)}
    [] k = "shift" -> {[op |-> "shift", a |-> n, dy |-> d[1], dx |-> d[2], fill |-> d[3] * Q, id |-> New] :
                        n \in I, d \in {<<1, 0, 0>>, <<0, -1, 0>>, <<-1, 1, 7>>, <<1, 1, 0>>, <<0, 0, 7>>, <<9, 0, 0>>}}
    [] k = "congrid" -> {e \in {[op |-> "congrid", a |-> n, ny |-> s[1], nx |-> s[2], id |-> New] : n \in Mics, s \in {<<4, 4>>, <<6, 4>>, <<4, 7>>, <<10, 6>>}} :
                           CongridOK(e.a, e.ny, e.nx)}
    [] k = "rotate" -> {e \in {[op |-> "rotate", a |-> n, k |-> t, id |-> New] : n \in Mics, t \in {1, 2, -1, 0}} :
                          (Even(e.k) \/ Square(e.a)) /\ "rough" \notin DOMAIN st[e.a] /\ \A c \in 1..3 : Mx(st[e.a].S[c]) < 16777216}
    [] k = "clean" -> {e \in {[op |-> "clean", a |-> n, b |-> m, one |-> Q, id |-> New] : n \in Mics, m \in Mics} : SameSize(st[e.a], st[e.b])}
    [] k = "demod" -> {e \in {[op |-> "demod", a |-> n, M |-> Tens(m, H(st[n].d) \div 2 + z, W(st[n].d) \div 2, t),
                               flags |-> IF f = 1 THEN Flg(H(st[n].d) \div 2 + z, W(st[n].d) \div 2) ELSE <<>>, ds |-> b, id |-> New] :
                               n \in Mics, m \in Mats, t \in {0, 1}, f \in {0, 1}, z \in {0, 0, 1}, b \in BOOLEAN} : Mx(st[e.a].d) <= 300 * Q}
    [] k = "demosaic" -> {[op |-> "demosaic", id |-> n, mode |-> m] : n \in Mics, m \in {"adjacent", "mean", "bogus"}}
    [] k = "dark" -> {e \in {[op |-> "dark", id |-> n, b |-> m] : n \in Mics, m \in Mics} : SameSize(st[e.id], st[e.b])}
    [] k = "flat" -> {e \in {[op |-> "flat", id |-> n, b |-> m] : n \in Mics, m \in Mics} : SameSize(st[e.id], st[e.b]) /\ FlatOK(st[e.id].d, st[e.b].d)}
    [] k = "ifov" -> {e \in {[op |-> "ifov", id |-> n] : n \in Mics} : DivisibleBy(Ifov(st[e.id].d), 4)}
    [] k = "mask" -> {[op |-> "mask", id |-> n, c |-> c, r |-> r[1], over |-> r[2], fill |-> r[3] * Q] :
                       n \in Mics, c \in {<<2, 2>>, <<0, 3>>}, r \in {<<1, 0, 0>>, <<2, 1, 5>>, <<0, 2, 0>>}}
    [] k = "poked" -> {[op |-> "poked", id |-> n, y |-> 1, x |-> 0, v |-> 40 * Q] : n \in {m \in I : H(st[m].d) >= 2}}
    [] k = "pokeS" -> {[op |-> "pokeS", id |-> n, c |-> c, y |-> 0, x |-> 0, v |-> 9 * 8 * Q] : n \in Mics, c \in {1, 3}}
    [] k = "pokeD" -> {[op |-> "pokeD", id |-> n, c |-> 2, y |-> 1, x |-> 1, v |-> 9 * 4 * Q] : n \in {m \in Mics : Demosaiced(st[m])}}
    [] k = "pokeh" -> {[op |-> "pokeh", id |-> n, key |-> "AAA", val |-> ToString(v)] : n \in Mics, v \in {num}}
    [] k = "setdata" -> {[op |-> "setdata", id |-> n, data |-> GridOf(H(st[n].d), W(st[n].d), PatF)] : n \in Mics}
    [] k = "setdefault" -> {[op |-> "setdefault", ang |-> a] : a \in Maps}
    [] k \in {"pokeviews", "read", "save"} -> {[op |-> k, id |-> n] : n \in Mics}
    [] k = "pokeuser" -> {[op |-> "pokeuser"]}
    [] k = "drop" -> {[op |-> "drop", id |-> n] : n \in {m \in I : Cardinality(I) > 2}}
    [] OTHER -> {}

\* what the resampled Stokes vector is (Store.tla leaves it to the observation)
Ghost(e, r) ==
  IF e.op # "congrid" THEN r
  ELSE LET ny == EvenBelow(e.ny) nx == EvenBelow(e.nx) u(v) == TruncDiv(v, (ny - 1) * (nx - 1)) IN
       [r EXCEPT !.S = [c \in 1..3 |-> MapG(Congrid(st[e.a].S[c], ny, nx), u)]] @@ [rough |-> TRUE]
Step(e) ==
  LET x == Apply(st, dflt, e) IN
  /\ (Changes(x) => Small(x.r.d))
  /\ st' = (IF e.op = "drop" THEN [n \in I \ {e.id} |-> st[n]]
            ELSE IF Changes(x) THEN [n \in I \cup {e.id} |-> IF n = e.id THEN Ghost(e, x.r) ELSE st[n]] ELSE st)
  /\ dflt' = (IF e.op = "setdefault" THEN e.ang ELSE dflt)
  /\ hist' = (IF Emit THEN Append(hist, e) ELSE Append(hist, [op |-> e.op]))
  /\ num' = num + 1
Pick == /\ kind = "" /\ Len(hist) < Depth
        /\ LET ks == IF I = {} THEN {"new"} ELSE IF Cardinality(I) >= 4 THEN {"drop"} ELSE Kinds
           IN  kind' \in (IF Emit THEN {RandomElement(ks)} ELSE ks)
        /\ UNCHANGED <<st, dflt, hist, num>>
Do == /\ kind \notin {"", "end"} /\ LET ops == OpsOf(kind) IN
           ops # {} /\ \E e \in (IF Emit THEN {RandomElement(ops)} ELSE ops) : Step(e)
      /\ kind' = ""
Skip == /\ kind \notin {"", "end"} /\ OpsOf(kind) = {} /\ kind' = "" /\ UNCHANGED <<st, dflt, hist, num>>
Done == /\ kind = "" /\ Len(hist) = Depth /\ UNCHANGED <<st, dflt, hist, num>> /\ kind' = "end"
        /\ (Emit => PrintT("SCHED " \o ToJson(hist)))
Init == st = <<>> /\ dflt = <<0, 1, 2, 3>> /\ kind = "" /\ hist = <<>> /\ num = 1
Next == Pick \/ Do \/ Skip \/ Done
Spec == Init /\ [][Next]_vars
View == <<st, dflt, kind, Len(hist)>>

Types == \A n \in I : TypeOK(st[n])
\* an image whose pixels were only changed through the library has the Stokes vector of its pixels
Coherence == \A n \in I : Coherent(st[n])
\* one operation, one image; orientation maps never change; failed operations change nothing
Isolated == [][\A n \in I \cap DOMAIN st' : st[n] # st'[n] =>
                 /\ st'[n].ang = st[n].ang /\ st'[n].k = st[n].k /\ H(st'[n].d) = H(st[n].d) /\ W(st'[n].d) = W(st[n].d)
                 /\ \A m \in I \ {n} : m \in DOMAIN st' => st'[m] = st[m]]_vars
HeadersKept == [][\A n \in DOMAIN st' : (n \notin I /\ st'[n].hdr # <<>>) => \E m \in I : st[m].hdr = st'[n].hdr]_vars
=============================================================================
