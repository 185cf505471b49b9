------------------------------ MODULE MC_Faults -----------------------------
(***************************************************************************)
(* A writer that hands documents, piece by piece and one after the other,  *)
(* each to a sink of its own, and a reader that is handed pieces by a      *)
(* source.  Sinks take no more than step pieces at once and no more than   *)
(* they have room for; sources fail after so many pieces.  Either may fail *)
(* only once and would then go on: it has failed all the same.  Either may *)
(* be interrupted, which is no failure.  A document is reported as written    *)
(* when all of it is, and as read when all of it was (Honest); what        *)
(* happened to one document is of no consequence for the next (Apart).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Emit
CONSTANTS Documents, Size
VARIABLES job, n, done, waited, results, o
vars == <<job, n, done, waited, results, o>>

Unlimited == Size + 1
Ends == [step : 1..2, limit : 0..Unlimited, silent : BOOLEAN, once : BOOLEAN]
Start == job = [kind |-> "none", ends |-> <<>>] /\ n = 1 /\ done = 0 /\ waited = FALSE /\ results = <<>> /\ o = [op |-> "reset"]
Choose ==
  /\ n = 1 /\ done = 0 /\ results = <<>> /\ Len(job.ends) < Documents
  /\ \E e \in Ends, k \in {"write", "read"} :
       /\ job.kind \in {"none", k}
       /\ k = "read" => job.ends = <<>> /\ ~e.silent
       /\ e.limit = Unlimited => ~e.silent /\ ~e.once
       /\ job' = [kind |-> k, ends |-> Append(job.ends, e)]
       /\ o' = [op |-> "ends", kind |-> k, ends |-> job'.ends]
  /\ UNCHANGED <<n, done, waited, results>>
End(r) == results' = Append(results, r) /\ n' = n + 1 /\ done' = 0 /\ waited' = FALSE
Min(a, b) == IF a < b THEN a ELSE b
Step ==
  /\ n <= Len(job.ends) /\ n = Len(results) + 1
  /\ LET e == job.ends[n]  room == e.limit - done IN
     IF done = Size THEN (IF job.kind = "read" /\ e.limit = Size THEN End("err") ELSE End("ok"))
     ELSE \/ ~waited /\ waited' = TRUE /\ UNCHANGED <<n, done, results>>
          \/ room = 0 /\ End("err")
          \/ room > 0 /\ \E k \in 1..Min(Min(e.step, room), Size - done) : done' = done + k /\ waited' = FALSE /\ UNCHANGED <<n, results>>
  /\ UNCHANGED <<job, o>>
Next == Choose \/ Step
Spec == Start /\ [][Next]_vars /\ WF_vars(Step)
View == <<job, n, done, waited, results>>
Emitted == o' # o => EmitOp(o')
\* A source that fails at the very end has failed, and a sink that is full then has not.
Expected(kind, e) == IF e.limit < Size \/ (kind = "read" /\ e.limit = Size) THEN "err" ELSE "ok"
Honest == \A i \in DOMAIN results : results[i] = "ok" => Expected(job.kind, job.ends[i]) = "ok"
Apart == \A i \in DOMAIN results : results[i] = Expected(job.kind, job.ends[i])
Finishes == <>(n = Len(job.ends) + 1)
=============================================================================
