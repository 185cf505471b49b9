------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* A run of the command-line tool, step by step, for every job: arguments, *)
(* reading, writing through a buffer to what has limited room, and ending. *)
(* A run that ends with success has written the whole document (Honest),   *)
(* every other one has an excuse (Useful), and every run ends.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Emit
C == INSTANCE Cli
CONSTANTS Pieces, Buffer
VARIABLES job, at, kept, sent, code, o
vars == <<job, at, kept, sent, code, o>>

Syntaxes == {"nt", "nq", "json", "xml"}
\* What the reader makes of a document, whether the syntax that it is written in can say that, and in how many pieces.
Docs == {[doc |-> "good", verdict |-> "must", says |-> TRUE, size |-> n] : n \in 1..Pieces}
        \cup {[doc |-> "empty", verdict |-> "must", says |-> TRUE, size |-> 0]}
        \cup {[doc |-> "unsayable", verdict |-> "must", says |-> FALSE, size |-> Pieces]}
        \cup {[doc |-> "spoilt", verdict |-> v, says |-> TRUE, size |-> 1] : v \in {"may", "refuse"}}
Commands == {[cmd |-> "convert", to |-> t] : t \in {"nt", "nq", "json", "xml", "turtle"}} \cup {[cmd |-> "draw", to |-> "dot"]}
Room == CASE C!Roomy(job) -> Pieces
          [] job.out = "limit" -> job.room
          [] OTHER -> 0

Nothing == [doc |-> "none"]
Init == job = Nothing /\ at = "start" /\ kept = 0 /\ sent = 0 /\ code = 99 /\ o = [op |-> "reset"]
End(c) == at' = "ended" /\ code' = c
Args ==
  /\ at = "start"
  /\ \E c \in Commands, f \in Syntaxes, i \in C!Ins, w \in C!Outs, d \in Docs, r \in 0..Pieces :
       LET j == [cmd |-> c.cmd, to |-> c.to, from |-> f, in |-> i, out |-> w, doc |-> d.doc, verdict |-> d.verdict,
                 says |-> d.says, size |-> d.size, room |-> r] IN
       /\ d.doc = "unsayable" => c.to = "xml"
       /\ w # "limit" => r = 0
       /\ job' = j
       /\ o' = [op |-> "job", job |-> j]
       /\ IF j.in = "missing" \/ C!Unwritable(j) THEN End(2) ELSE at' = "read" /\ code' = code
  /\ UNCHANGED <<kept, sent>>
Read ==
  /\ at = "read"
  /\ \/ C!Fitting(job) /\ C!Readable(job) /\ job.verdict # "refuse" /\ at' = "write" /\ code' = code
     \/ (~C!Fitting(job) \/ ~C!Readable(job) \/ job.verdict # "must") /\ End(1)
  /\ UNCHANGED <<job, kept, sent, o>>
\* A sink takes what it has room for.
Drain ==
  /\ at \in {"write", "flush"} /\ kept > 0
  /\ IF sent < Room THEN sent' = sent + 1 /\ kept' = kept - 1 /\ UNCHANGED <<at, code>>
     ELSE End(1) /\ UNCHANGED <<sent, kept>>
  /\ UNCHANGED <<job, o>>
Put ==
  /\ at = "write" /\ kept < Buffer /\ sent + kept < job.size
  /\ kept' = kept + 1 /\ UNCHANGED <<job, at, sent, code, o>>
\* What cannot be said may be found before or behind what can be said.
Refuse ==
  /\ at = "write" /\ ~job.says /\ End(1) /\ UNCHANGED <<job, kept, sent, o>>
Written ==
  /\ at = "write" /\ job.says /\ sent + kept = job.size
  /\ at' = "flush" /\ UNCHANGED <<job, kept, sent, code, o>>
Exit ==
  /\ at = "flush" /\ kept = 0 /\ End(0) /\ UNCHANGED <<job, kept, sent, o>>
Next == Args \/ Read \/ Drain \/ Put \/ Refuse \/ Written \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<job, at, kept, sent, code>>
Emitted == at = "start" => EmitOp(o')

Honest == code = 0 => sent = job.size /\ C!Readable(job) /\ ~C!Unwritable(job) /\ C!Fitting(job) /\ job.verdict # "refuse" /\ job.says
Useful == at = "ended" /\ code # 0 =>
            ~C!Readable(job) \/ ~C!Roomy(job) \/ ~C!Fitting(job) \/ job.verdict # "must" \/ ~job.says
Ends == <>(at = "ended")
=============================================================================
