----------------------------- MODULE MC_Chunks -----------------------------
(***************************************************************************)
(* Every way of cutting a message into chunks (C03).  A first receiver, W, *)
(* gets the whole message at once; what each of its steps leaves is noted. *)
(* A second one gets the same bytes one by one and decodes at any time: a  *)
(* chunk of n bytes is n bytes without a step between them.  It has to     *)
(* make the steps of W, each as soon as its bytes have arrived and not     *)
(* before.                                                                 *)
(*                                                                         *)
(* Stepwise is what proofs/ChunkProof assumes of a decoder, with the       *)
(* number of units taken for its state; there it is proved that nothing    *)
(* else is needed, for messages of any length and contents.                *)
(***************************************************************************)
EXTENDS Catalogue, TLC, Json, IOUtils

CONSTANTS Second     \* "few" or "all": what may follow the first submessage

VARIABLES msg, arrived,
          wbuf, wmode, wrcv, wknown, wout,
          notes,     \* what each step of W left
          taken,     \* steps of the second receiver
          phase      \* "whole": W decodes, "parts": the second receiver does

W == INSTANCE Receiver WITH buf <- wbuf, mode <- wmode, rcv <- wrcv, known <- wknown, out <- wout

wvars == <<wbuf, wmode, wrcv, wknown, wout>>
cvars == <<rvars, msg, arrived, wvars, notes, taken, phase>>

WellFormed == {d \in Units : d.a # "bad" /\ ~EndsMessage(d)}
Few == {d \in WellFormed : d.a \in {"src", "dst", "ts", "tsinv"}
                           \/ (d.a = "ent" /\ d.kind = NACK_FRAG) \/ (d.a = "skip" /\ d.n = 5)}

Init ==
    /\ \E k \in {KindUdp4} : ReceiverInit(k)
    /\ \E d \in WellFormed, e \in (IF Second = "all" THEN WellFormed ELSE Few) :
          msg = BytesOf(Hd(Rtps, <<2, 4>>, <<1, 15>>, P1)) \o BytesOf(d) \o BytesOf(e)
    /\ wbuf = msg /\ wmode = "H" /\ wrcv = rcv /\ wknown = TRUE /\ wout = out
    /\ arrived = 0 /\ taken = 0 /\ notes = <<>> /\ phase = "whole"

Whole ==
    /\ phase = "whole"
    /\ IF wbuf = <<>>
       THEN phase' = "parts" /\ UNCHANGED <<wvars, notes>>
       ELSE /\ W!Progress
            /\ notes' = Append(notes, [at |-> Len(msg) - Len(wbuf'), mode |-> wmode', rcv |-> wrcv', out |-> wout'])
            /\ UNCHANGED phase
    /\ UNCHANGED <<rvars, msg, arrived, taken>>

Arrive ==
    /\ phase = "parts" /\ arrived < Len(msg)
    /\ Feed(<<msg[arrived + 1]>>)
    /\ arrived' = arrived + 1
    /\ UNCHANGED <<msg, wvars, notes, taken, phase>>

Take ==
    /\ phase = "parts" /\ Progress
    /\ taken' = taken + 1
    /\ UNCHANGED <<msg, arrived, wvars, notes, phase>>

Wait ==
    /\ phase = "parts" /\ Await
    /\ UNCHANGED <<msg, arrived, wvars, notes, taken, phase>>

Next == Whole \/ Arrive \/ Take \/ Wait
Spec == Init /\ [][Next]_cvars

-----------------------------------------------------------------------------
Before(k) == IF k = 0 THEN 0 ELSE notes[k].at
pos == arrived - Len(buf)

(* the steps are those of W, whatever has arrived *)
Lockstep == phase = "parts" =>
    /\ taken <= Len(notes)
    /\ pos = Before(taken)
    /\ taken > 0 => mode = notes[taken].mode /\ rcv = notes[taken].rcv /\ out.r \in {"none", notes[taken].out.r}

(* what a step gives is what it gave W: waiting gives nothing *)
SameItems == [][Take => /\ taken < Len(notes) /\ out' = notes[taken'].out]_cvars
IdleWait == [][Wait => out'.r = "none" /\ UNCHANGED <<buf, mode, rcv, known>>]_cvars

(* a step is made if and only if all its bytes are there *)
Punctual == phase = "parts" =>
    LET there == taken < Len(notes) /\ Before(taken + 1) <= arrived
    IN  (ENABLED Take <=> there) /\ (ENABLED Wait <=> ~there)

(* the actions of ChunkProof, with state = taken, Size(p, k) = Before(k + 1) - Before(k), After(p, k) = k + 1 *)
Stepwise == [][phase = "parts" =>
    \/ arrived' >= arrived /\ UNCHANGED <<pos, taken>>
    \/ /\ taken < Len(notes) /\ pos + (Before(taken + 1) - Before(taken)) <= arrived
       /\ pos' = pos + (Before(taken + 1) - Before(taken))
       /\ taken' = taken + 1
       /\ UNCHANGED arrived]_cvars

-----------------------------------------------------------------------------
(* Schedules for the real code: every message in two chunks, in all ways *)
Emitted == ("EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1" /\ phase = "parts"
            /\ arrived \in 1..(Len(msg) - 1) /\ Incomplete(buf, mode))
           => PrintT("SCHEDULE " \o ToJson([chunks |-> <<SubSeq(msg, 1, arrived), SubSeq(msg, arrived + 1, Len(msg))>>]))
=============================================================================
