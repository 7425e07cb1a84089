------------------------------- MODULE IoTrace -------------------------------
(* C13, C14: a stream is a first-in first-out queue of objects.  Writing an
   object appends it, reading takes the first one off and delivers exactly it,
   whatever the destination held before, and touches nothing behind it.

   Objects are records of strings and integers; their values are given by their
   bits (binary streams) or by the digits the stream prints (text streams).   *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS Kind, Cplx, Focal
VARIABLES l, queue, verdict
vars == <<l, queue, verdict>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Writes == {"binwrite", "textwrite"}
Reads == {"binread", "textread"}

\* the text of a tensor lists the stored values in storage order
PrintedOk(ev) == "printed" \in DOMAIN ev => ev.printed = ev.obj.vals

Verdict(ev) ==
  CASE ev.op \in {"crash", "hang"} -> IF ev.in \in Focal THEN "bad" ELSE "skip"
    [] ev.op \notin Focal -> "skip"
    [] ev.op \in Writes -> IF PrintedOk(ev) /\ ("idx" \in DOMAIN ev.obj => ev.obj.idx = 1) THEN "ok" ELSE "bad"
    [] ev.op \in Reads -> IF queue # <<>> /\ ev.obj = Head(queue) /\ ev.good = 1 THEN "ok" ELSE "bad"
    [] ev.op = "ioend" -> IF queue = <<>> /\ ev.eof = 1 /\ ev.shared = 1 THEN "ok" ELSE "bad"
    [] OTHER -> "skip"

Init == l = 2 /\ queue = <<>> /\ verdict = "ok"
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
     IN /\ verdict' = Verdict(ev)
        /\ queue' = IF ev.op \in {"begin", "end", "crash", "hang"} THEN <<>>
                    ELSE IF ev.op \in Writes THEN Append(queue, ev.obj)
                    ELSE IF ev.op \in Reads /\ queue # <<>> THEN Tail(queue)
                    ELSE queue
        /\ IF verdict' = "bad" THEN PrintT(<<"BAD", l, ev.op>>) ELSE TRUE
        /\ TLCSet(IF verdict' = "ok" THEN 11 ELSE 13, TLCGet(IF verdict' = "ok" THEN 11 ELSE 13) + 1)
Spec == Init /\ [][Next]_vars

Conforms == verdict # "bad"
Counters == TLCSet(11, 0) /\ TLCSet(12, 0) /\ TLCSet(13, 0)
ASSUME Counters
Accepted == /\ PrintT(<<"COUNTS", TLCGet(11), TLCGet(12), TLCGet(13), TLCGet("stats").diameter>>)
            /\ TLCGet("stats").diameter = Len(Trace)
===============================================================================
