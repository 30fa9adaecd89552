-------------------------------- MODULE Calib --------------------------------
(* How the calibration distributes its work (C20).  A frame of HS x WS       *)
(* superpixels is split into a grid of PY x PX pieces, the pieces are        *)
(* computed by workers that start and finish in any order, and the results   *)
(* are put together again.  The measurements arrive in any order, each with  *)
(* its own normalisation, and are sorted by angle first.                     *)
(*                                                                           *)
(* The result of a superpixel is a function of the measurements of that      *)
(* superpixel only: it is represented by the pair of the superpixel and the  *)
(* measurement sequence it was computed from.  Right: every superpixel has   *)
(* its own result, computed from the sorted measurements, whatever the grid, *)
(* the order of the files and the order in which the pieces finish.          *)
(*                                                                           *)
(* Merge:  "index"       results are kept at the index of their piece        *)
(*         "completion"  in the order they come in         (negative control)*)
(*         "transposed"  pieces are numbered by columns when split and by    *)
(*                       rows when merged                  (negative control)*)
(* Norms:  "sorted" / "given": whether the normalisations are sorted along   *)
(*         with the measurements                           (negative control)*)
(* Emit: print the finished runs for replay on the library.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Grids, Angles, Merge, Norms, Emit, Fail
VARIABLES size, grid, files, phase, todo, running, results, came, out, crashed
vars == <<size, grid, files, phase, todo, running, results, came, out, crashed>>

\* sizes and grids are given as two digits
Pairs(s) == {<<n \div 10, n % 10>> : n \in s}
Fits(s, g) == s[1] % g[1] = 0 /\ s[2] % g[2] = 0         \* whole superpixels per piece
PY == grid[1]
PX == grid[2]
HS == size[1]
WS == size[2]
SY == HS \div PY
SX == WS \div PX
Sup == (0..(HS-1)) \X (0..(WS-1))
\* piece (i,j) has number i + PY*j
Number(i, j) == i + PY * j
Pieces == {Number(i, j) : i \in 0..(PY-1), j \in 0..(PX-1)}
Piece(n) == <<n % PY, n \div PY>>
Orders == {f \in [1..Angles -> 1..Angles] : \A i, j \in 1..Angles : f[i] = f[j] => i = j}
\* the measurements after sorting: angle k with the normalisation used for it
Sorted == [k \in 1..Angles |-> <<k, IF Norms = "sorted" THEN k ELSE files[k]>>]
Right == [k \in 1..Angles |-> <<k, k>>]
\* what a worker returns for piece n: for each of its superpixels (in the piece's own coordinates)
Compute(n) ==
  LET i == Piece(n)[1] j == Piece(n)[2] IN
  [p \in (0..(SY-1)) \X (0..(SX-1)) |-> [sup |-> <<i * SY + p[1], j * SX + p[2]>>, from |-> Sorted]]

Init ==
  /\ size \in Pairs(Sizes) /\ grid \in Pairs(Grids) /\ files \in Orders
  /\ phase = "given" /\ todo = {} /\ running = {} /\ results = <<>> /\ came = <<>> /\ out = <<>> /\ crashed = FALSE
Split ==
  /\ phase = "given"
  /\ IF Fits(size, grid) THEN phase' = "work" /\ todo' = Pieces ELSE phase' = "refused" /\ todo' = {}
  /\ results' = [n \in {} |-> 0]
  /\ UNCHANGED <<size, grid, files, running, came, out, crashed>>
Start == phase = "work" /\ \E n \in todo : todo' = todo \ {n} /\ running' = running \cup {n}
         /\ UNCHANGED <<size, grid, files, phase, results, came, out, crashed>>
Finish == phase = "work" /\ \E n \in running :
            /\ running' = running \ {n}
            /\ results' = [m \in DOMAIN results \cup {n} |-> IF m = n THEN Compute(n) ELSE results[m]]
            /\ came' = Append(came, n)
            /\ UNCHANGED <<size, grid, files, phase, todo, out, crashed>>
Crash == Fail /\ phase = "work" /\ running # {} /\ crashed' = TRUE /\ phase' = "failed"
         /\ UNCHANGED <<size, grid, files, todo, running, results, came, out>>
Put ==
  /\ phase = "work" /\ todo = {} /\ running = {}
  /\ LET at(n) == CASE Merge = "completion" -> results[came[n + 1]]
                    [] OTHER -> results[n]
         num(i, j) == IF Merge = "transposed" THEN PX * i + j ELSE Number(i, j)
     IN  out' = [p \in Sup |-> at(num(p[1] \div SY, p[2] \div SX))[<<p[1] % SY, p[2] % SX>>]]
  /\ phase' = "saved"
  /\ (Emit => PrintT("SCHED " \o ToJson([size |-> size, grid |-> grid, files |-> files, came |-> came])))
  /\ UNCHANGED <<size, grid, files, todo, running, results, came, crashed>>
Done == phase \in {"saved", "refused", "failed"} /\ UNCHANGED vars
Next == Split \/ Start \/ Finish \/ Crash \/ Put
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the order files were started in does not matter for what follows
View == <<size, grid, files, phase, todo, running, IF Merge = "completion" THEN came ELSE <<>>, out>>

Partition ==      \* the pieces cover every superpixel exactly once
  phase = "work" => /\ \A p \in Sup : Cardinality({n \in Pieces : \E q \in DOMAIN Compute(n) : Compute(n)[q].sup = p}) = 1
                    /\ Cardinality(Pieces) = PY * PX
Correct == phase = "saved" => \A p \in Sup : out[p] = [sup |-> p, from |-> Right]
NothingHalfDone == phase # "saved" => out = <<>>
Refused == (phase = "refused") => ~Fits(size, grid)
Ends == <>(phase \in {"saved", "refused", "failed"})
=============================================================================
