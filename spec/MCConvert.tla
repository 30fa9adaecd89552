------------------------------ MODULE MCConvert ------------------------------
(* Converting a raw file, step by step, interrupted anywhere (C15): the      *)
(* process may be killed or the disk may refuse a block at any point.  At    *)
(* all times the raw file is intact or the FITS file is complete.            *)
(*                                                                           *)
(* Order: "after"   the raw file is removed after the FITS file is closed    *)
(*        "before"  as soon as it has been read              (negative control) *)
(*        "always"  even if writing failed                   (negative control) *)
(*        "early"   after the first block                    (negative control) *)
EXTENDS Naturals, Sequences, Files
CONSTANTS Blocks, Order
VARIABLES remove, pc, buf, raw, fits, old
vars == <<remove, pc, buf, raw, fits, old>>

Content == [i \in 1..Blocks |-> i]
None == <<>>
Init == /\ remove \in BOOLEAN /\ old \in BOOLEAN /\ pc = "read" /\ buf = None /\ raw = Content
        /\ fits = (IF old THEN <<0>> ELSE None)
Read == pc = "read" /\ buf' = raw /\ pc' = "create"
        /\ raw' = (IF remove /\ Order = "before" THEN None ELSE raw) /\ UNCHANGED <<remove, fits, old>>
Create == pc = "create" /\ fits' = None /\ pc' = "write" /\ UNCHANGED <<remove, buf, raw, old>>
Write == pc = "write" /\ Len(fits) < Len(buf) /\ fits' = Append(fits, buf[Len(fits) + 1])
         /\ raw' = (IF remove /\ Order = "early" THEN None ELSE raw) /\ UNCHANGED <<remove, pc, buf, old>>
Refuse == pc \in {"create", "write"} /\ pc' = (IF Order = "always" THEN "remove" ELSE "error") /\ UNCHANGED <<remove, buf, raw, fits, old>>
Close == pc = "write" /\ Len(fits) = Len(buf) /\ pc' = "remove" /\ UNCHANGED <<remove, buf, raw, fits, old>>
Remove == pc = "remove" /\ raw' = (IF remove THEN None ELSE raw) /\ pc' = "done" /\ UNCHANGED <<remove, buf, fits, old>>
Kill == pc \notin {"done", "error", "killed"} /\ pc' = "killed" /\ UNCHANGED <<remove, buf, raw, fits, old>>
Next == Read \/ Create \/ Write \/ Refuse \/ Close \/ Remove \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoLoss == NothingLost(raw, fits, Content, Content)
OnlyIfAsked == ~remove => raw = Content
Complete == pc = "done" => fits = Content /\ raw = (IF remove THEN None ELSE Content)
Ends == <>(pc \in {"done", "error", "killed"})
=============================================================================
