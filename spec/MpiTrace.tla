-------------------------------- MODULE MpiTrace -------------------------------
(* Recorded runs of mpi.hpp against Collective.  One event is one operation with
   the inputs and results of all processes.                                    *)
EXTENDS Collective, TLC, Json, IOUtils
CONSTANT Focal
VARIABLES l, verdict
vars == <<l, verdict>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Sum(xs) == LET s[i \in 0..Len(xs)] == IF i = 0 THEN 0 ELSE s[i - 1] + xs[i] IN s[Len(xs)]
SeqMax(xs) == CHOOSE x \in {xs[i] : i \in 1..Len(xs)} : \A i \in 1..Len(xs) : xs[i] <= x
SeqMin(xs) == CHOOSE x \in {xs[i] : i \in 1..Len(xs)} : \A i \in 1..Len(xs) : x <= xs[i]
Valid(ev) == 0 <= ev.root /\ ev.root < ev.size
Ok(ev) ==
  CASE ev.op \in {"crash", "hang"} -> FALSE
    [] ev.op = "bcast"  -> \A p \in 1..ev.size : ev.out[p] = ev.ins[ev.root + 1]
    [] ev.op = "reduce" -> ev.out[ev.root + 1] = Reduced(ev.size, ev.root, ev.ins)
    [] ev.op = "sum"    -> \A k \in 1..Len(ev.ins[1]) : ev.out[ev.root + 1][k] = Sum([p \in 1..ev.size |-> ev.ins[p][k]])
    \* messages from one process to another arrive in the order they were sent
    [] ev.op = "send"   -> ev.out[ev.dst + 1] = ev.ins[ev.src + 1]
    [] ev.op = "reject" -> \A p \in 1..ev.size : ev.out[p] = (IF ev.size = 1 \/ Valid(ev) THEN 0 ELSE 1)
    \* no process leaves a barrier before every process has reached it
    [] ev.op = "barrier" -> SeqMax(ev.ins) <= SeqMin(ev.out)
    [] OTHER -> TRUE
Init == l = 2 /\ verdict = "ok"
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
         c == IF ev.op \in Focal THEN 11 ELSE 13
     IN IF ~Ok(ev) THEN verdict' = "bad" /\ PrintT(<<"BAD", l, ev.op>>)
        ELSE verdict' = "ok" /\ TLCSet(c, TLCGet(c) + 1)
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
ASSUME TLCSet(11, 0) /\ TLCSet(12, 0) /\ TLCSet(13, 0)
Accepted == /\ PrintT(<<"COUNTS", TLCGet(11), TLCGet(12), TLCGet(13), TLCGet("stats").diameter>>)
            /\ TLCGet("stats").diameter = Len(Trace)
===============================================================================
