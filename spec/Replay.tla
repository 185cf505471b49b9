------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Validates a recorded run of the real code (one event per line of the    *)
(* file named by the environment variable TRACE) against a specification.  *)
(* The specification is given by Start(e), its state after a reset;        *)
(* Conf(s, e), whether event e, with the result and the state that the     *)
(* real code reported, is a step of it from state s; Post(s, e), its state *)
(* after that step; and Want(s, e), what would have been right, which is   *)
(* only reported.  An event that is not a step is reported and ends the    *)
(* validation of the behaviour it is in: it resumes at the next reset.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Start(_), Conf(_, _), Post(_, _), Want(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, s, skip
vars == <<l, s, skip>>

Init == l = 1 /\ s = <<>> /\ skip = TRUE

Mismatch(i, want) == PrintT("MISMATCH " \o ToString(i) \o " " \o ToString(want))

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset"
     THEN /\ s' = Start(e)
          /\ IF e.st = "done"
             THEN skip' = FALSE
             ELSE skip' = TRUE /\ Mismatch(l, "reset")
     ELSE IF skip THEN UNCHANGED <<s, skip>>
     ELSE IF e.st # "done"
     THEN skip' = TRUE /\ s' = s /\ Mismatch(l, Want(s, e))
     ELSE IF Conf(s, e)
     THEN s' = Post(s, e) /\ skip' = FALSE
     ELSE skip' = TRUE /\ s' = s /\ Mismatch(l, Want(s, e))

Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
