------------------------------- MODULE Grid -------------------------------
(* Two-dimensional pixel arrays.  A grid is a sequence of rows, each row a  *)
(* sequence of integers; the coordinates used by the operators below are    *)
(* 0-based (y = row, x = column) like those of the implementation.          *)
(*                                                                          *)
(* Pixel values are integers: a real value v is represented by v * q for a  *)
(* scale q fixed by the context (the recorded events keep the ratio between *)
(* the scales of inputs and outputs constant, so q itself never appears).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SENT == 2000000000            \* |v| >= SENT: not a number (see harness/obs.py)

H(g) == Len(g)
W(g) == IF Len(g) = 0 THEN 0 ELSE Len(g[1])
Px(g, y, x) == g[y+1][x+1]
Ys(g) == 0..(H(g)-1)
Xs(g) == 0..(W(g)-1)
Even(n) == n % 2 = 0

\* h x w grid whose (y,x) pixel is F(y,x), evaluated at once
Mk(h, w, F(_,_)) == TLCEval([i \in 1..h |-> [j \in 1..w |-> F(i-1, j-1)]])
Const(h, w, v) == [i \in 1..h |-> [j \in 1..w |-> v]]
MapG(g, F(_)) == LET f(y, x) == F(Px(g, y, x)) IN Mk(H(g), W(g), f)
MapG2(a, b, F(_,_)) == LET f(y, x) == F(Px(a, y, x), Px(b, y, x)) IN Mk(H(a), W(a), f)
ScaleG(g, k) == LET f(v) == k * v IN MapG(g, f)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumRange(_, _, _)
SumRange(F(_), lo, hi) == IF lo > hi THEN 0 ELSE F(lo) + SumRange(F, lo + 1, hi)
SumG(g) == LET cell(i, j) == g[i][j]
               row(i) == LET c(j) == cell(i, j) IN SumRange(c, 1, Len(g[i]))
           IN  SumRange(row, 1, H(g))

Abs(n) == IF n < 0 THEN -n ELSE n
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
\* truncation towards zero, like int() in the implementation (TLA's \div floors)
TruncDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

\* total comparisons: the shape is compared before any pixel
IsRect(g) == \A i \in 1..Len(g) : Len(g[i]) = W(g)
IsShape(g, h, w) == H(g) = h /\ (h = 0 \/ W(g) = w) /\ IsRect(g)
SameShape(a, b) == H(a) = H(b) /\ W(a) = W(b) /\ IsRect(a) /\ IsRect(b)
Clean(v) == v < SENT /\ v > -SENT
Near(a, b, tol) == a = b \/ (Clean(a) /\ Clean(b) /\ Abs(a - b) <= tol)
EqG(a, b) == SameShape(a, b) /\ \A y \in 1..H(a) : \A x \in 1..W(a) : a[y][x] = b[y][x]
NearG(a, b, tol) ==
  SameShape(a, b) /\ \A y \in 1..H(a) : \A x \in 1..W(a) : Near(a[y][x], b[y][x], tol)
CleanG(g) == \A y \in 1..H(g) : \A x \in 1..Len(g[y]) : Clean(g[y][x])
\* k grids
Stack(s, k, h, w) == Len(s) = k /\ \A i \in 1..k : IsShape(s[i], h, w)
EqS(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqG(a[i], b[i])
NearS(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearG(a[i], b[i], tol)
CleanS(s) == \A i \in 1..Len(s) : CleanG(s[i])
\* is g the h x w grid of F ?   (nothing is built, so h and w may be large)
IsMk(g, h, w, F(_,_)) ==
  IsShape(g, h, w) /\ \A y \in 1..h : \A x \in 1..w : g[y][x] = F(y-1, x-1)
IsNearMk(g, h, w, F(_,_), tol) ==
  IsShape(g, h, w) /\ \A y \in 1..h : \A x \in 1..w : Near(g[y][x], F(y-1, x-1), tol)

\* the failing clause if the condition does not hold
Chk(cond, clause) == IF cond THEN {} ELSE {clause}
=============================================================================
