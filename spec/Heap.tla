-------------------------------- MODULE Heap --------------------------------
(* Why images are independent values (C09).  Images are objects whose pixel  *)
(* array, Stokes vector, demosaiced images and header are references to      *)
(* buffers; users and in-place operations write into buffers.  The abstract  *)
(* state val is the one of Store.tla: every image is a value of its own.     *)
(* The heap implements it (Refines) as long as no two owners refer to the    *)
(* same buffer (NoAlias): the condition every recorded session is checked    *)
(* for (share = <<>> in StoreTrace.tla).                                     *)
(*                                                                           *)
(* Sharing is the set of the shortcuts an implementation might take:         *)
(*   "new-data"    an image keeps the user's array                           *)
(*   "copy-F"      a copy keeps its operand's buffer for field F             *)
(*   "derive-F"    a derived image (arithmetic, shifting, rotating ...)      *)
(*                 keeps its operand's buffer for field F                    *)
(*   "views"       per-angle views handed to the user alias the pixels       *)
(* With Sharing = {} both invariants hold; each single shortcut breaks       *)
(* NoAlias, and Refines once somebody writes (negative controls).            *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Sharing, Depth, MaxImages
VARIABLES heap, im, user, val, uval, steps
vars == <<heap, im, user, val, uval, steps>>

Fields == {"d", "S", "hdr"}
Empty == [x \in {} |-> 0]
Fresh(n) == Len(heap) + n
\* buffers hold version numbers: a written buffer differs from all others
Val(a) == heap[a]
Names == 1..MaxImages
Free == CHOOSE n \in Names : n \notin DOMAIN im /\ \A m \in Names : m \notin DOMAIN im => n <= m
Room == Cardinality(DOMAIN im) < MaxImages
Max(s) == CHOOSE m \in s : \A x \in s : x <= m
New == steps + 100
\* "S" is a function of "d" (theoretical) at creation: it gets a version too

Init == heap = <<>> /\ im = Empty /\ user = {} /\ val = Empty /\ uval = Empty /\ steps = 0

\* user array, then an image of it
Create ==
  /\ Room
  /\ LET u == Fresh(1) own == "new-data" \notin Sharing
         d == IF own THEN Fresh(2) ELSE u
         h2 == heap \o (IF own THEN <<New, New, New + 1, New + 2>> ELSE <<New, New + 1, New + 2>>)
         n == Len(h2)
         r == [d |-> d, S |-> n - 1, hdr |-> n]
     IN  /\ heap' = h2
         /\ im' = [x \in DOMAIN im \cup {Free} |-> IF x = Free THEN r ELSE im[x]]
         /\ val' = [x \in DOMAIN val \cup {Free} |-> IF x = Free THEN [f \in Fields |-> h2[r[f]]] ELSE val[x]]
         /\ user' = user \cup {u}
         /\ uval' = [x \in DOMAIN uval \cup {u} |-> IF x = u THEN New ELSE uval[x]]

\* a new image from image a: the fields in `new` get new values, the others a's
Derive(a, kind, new) ==
  /\ Room
  /\ LET keep(f) == f \notin new /\ (kind \o "-" \o f) \in Sharing
         v(f) == IF f \in new THEN New + (CASE f = "d" -> 0 [] f = "S" -> 1 [] OTHER -> 2) ELSE Val(im[a][f])
         \* buffers are allocated in the order d, S, hdr
         n0 == Len(heap)
         ad == IF keep("d") THEN im[a].d ELSE n0 + 1
         n1 == IF keep("d") THEN n0 ELSE n0 + 1
         aS == IF keep("S") THEN im[a].S ELSE n1 + 1
         n2 == IF keep("S") THEN n1 ELSE n1 + 1
         ah == IF keep("hdr") THEN im[a].hdr ELSE n2 + 1
         h2 == heap \o (IF keep("d") THEN <<>> ELSE <<v("d")>>) \o (IF keep("S") THEN <<>> ELSE <<v("S")>>)
                    \o (IF keep("hdr") THEN <<>> ELSE <<v("hdr")>>)
         r == [d |-> ad, S |-> aS, hdr |-> ah]
     IN  /\ heap' = h2
         /\ im' = [x \in DOMAIN im \cup {Free} |-> IF x = Free THEN r ELSE im[x]]
         /\ val' = [x \in DOMAIN val \cup {Free} |->
                      IF x = Free THEN [f \in Fields |-> IF f \in new THEN v(f) ELSE val[a][f]] ELSE val[x]]
  /\ UNCHANGED <<user, uval>>
Copy(a) == Derive(a, "copy", {})
Arithmetic(a) == Derive(a, "derive", {"d", "S"})      \* header kept
Demodulate(a) == Derive(a, "derive", {"S"})           \* pixels and header kept
Rotate(a) == Derive(a, "derive", {"d"})               \* (the rotated Stokes vector is a new one too)

\* writing into a buffer, as a user or an in-place operation may
Write(n, f) ==
  /\ heap' = [heap EXCEPT ![im[n][f]] = New]
  /\ val' = [val EXCEPT ![n][f] = New]
  /\ UNCHANGED <<im, user, uval>>
\* replacing a buffer by a new one, as the other in-place operations do
Replace(n, f) ==
  /\ heap' = Append(heap, New)
  /\ im' = [im EXCEPT ![n][f] = Fresh(1)]
  /\ val' = [val EXCEPT ![n][f] = New]
  /\ UNCHANGED <<user, uval>>
UserWrite(u) ==
  /\ heap' = [heap EXCEPT ![u] = New] /\ uval' = [uval EXCEPT ![u] = New] /\ UNCHANGED <<im, val, user>>
\* the views handed out are arrays of the user's
GetView(n) ==
  /\ IF "views" \in Sharing
     THEN user' = user \cup {im[n].d} /\ uval' = [x \in DOMAIN uval \cup {im[n].d} |-> Val(IF x = im[n].d THEN im[n].d ELSE x)]
          /\ heap' = heap
     ELSE LET u == Fresh(1) IN
          /\ heap' = Append(heap, Val(im[n].d)) /\ user' = user \cup {u}
          /\ uval' = [x \in DOMAIN uval \cup {u} |-> IF x = u THEN Val(im[n].d) ELSE uval[x]]
  /\ UNCHANGED <<im, val>>
Drop(n) ==
  /\ im' = [x \in DOMAIN im \ {n} |-> im[x]] /\ val' = [x \in DOMAIN val \ {n} |-> val[x]]
  /\ UNCHANGED <<heap, user, uval>>

Next ==
  /\ steps < Depth
  /\ steps' = steps + 1
  /\ \/ Create
     \/ \E a \in DOMAIN im : Copy(a) \/ Arithmetic(a) \/ Demodulate(a) \/ Rotate(a) \/ Drop(a) \/ GetView(a)
     \/ \E n \in DOMAIN im, f \in Fields : Write(n, f) \/ Replace(n, f)
     \/ \E u \in user : UserWrite(u)
Spec == Init /\ [][Next]_vars

NoAlias ==
  /\ \A n, m \in DOMAIN im : \A f, g \in Fields : (n # m \/ f # g) => im[n][f] # im[m][g]
  /\ \A n \in DOMAIN im : \A f \in Fields : im[n][f] \notin user
Refines == /\ \A n \in DOMAIN im : \A f \in Fields : Val(im[n][f]) = val[n][f]
           /\ \A u \in user : Val(u) = uval[u]
=============================================================================
