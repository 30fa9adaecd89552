-------------------------------- MODULE Trace --------------------------------
(* Judges a recorded execution: one event per state.  Store events (s = 1)    *)
(* are steps of the image store (StoreTrace), file events (f = 1) steps of    *)
(* the folder (Files), all others stand for themselves (Misc, Pix).  Every    *)
(* failing clause is printed; the file is judged to its end: after a failing  *)
(* store step the observed state is taken over if later steps can be judged   *)
(* against it, otherwise the rest of that history is skipped.                 *)
EXTENDS Misc, StoreTrace, Files, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, st, dflt, dead, files
vars == <<i, st, dflt, dead, files>>

Empty == [x \in {} |-> 0]
NoFiles == [fs |-> Empty, im |-> Empty, dead |-> FALSE]
Init == i = 1 /\ st = Empty /\ dflt = <<0, 1, 2, 3>> /\ dead = FALSE /\ files = NoFiles

Report(f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(i) \o " " \o ToString(f))

StoreStep(e) ==
  IF e.op = "begin" THEN st' = Empty /\ dflt' = e.ang /\ dead' = FALSE
  ELSE IF dead THEN UNCHANGED <<st, dflt, dead>>
  ELSE LET f == StoreFails(st, dflt, e) IN
       /\ Report(f)
       /\ IF f = {} \/ Usable(e)
          THEN st' = Observed(st, dflt, e) /\ dead' = (f # {} /\ ~(Names(e) = DOMAIN st'))
          ELSE st' = Empty /\ dead' = TRUE
       /\ dflt' = DefaultAfter(dflt, e)

\* file sessions (f = 1): after a failing step the rest of the session is skipped
FileStep(e) ==
  IF e.op = "fbegin" THEN files' = NoFiles
  ELSE IF files.dead THEN UNCHANGED files
  ELSE LET f == FFails([fs |-> files.fs, im |-> files.im], e) IN
       /\ Report(f)
       /\ LET n == FAfter([fs |-> files.fs, im |-> files.im], e) IN files' = [fs |-> n.fs, im |-> n.im, dead |-> f # {}]

Next ==
  /\ i <= Len(T)
  /\ LET e == T[i] IN
     IF Has(e, "s") THEN StoreStep(e) /\ UNCHANGED files
     ELSE IF Has(e, "f") THEN FileStep(e) /\ UNCHANGED <<st, dflt, dead>>
     ELSE Report(IF e.op = "cut" THEN CutFails(e) ELSE PureFails(e)) /\ UNCHANGED <<st, dflt, dead, files>>
  /\ i' = i + 1
  /\ IF i = Len(T) THEN PrintT("DONE " \o ToString(i)) ELSE TRUE

Spec == Init /\ [][Next]_vars
View == i
=============================================================================
