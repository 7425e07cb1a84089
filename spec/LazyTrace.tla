------------------------------- MODULE LazyTrace ------------------------------
(* Trace validation of the lazy graph library against LazyGraph. *)
EXTENDS LazyGraph, TLC, Json, IOUtils
CONSTANT Focal
VARIABLES l, verdict
vars == <<g, root, cached, snaps, l, verdict>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

Step(ev) ==
  CASE ev.op = "make"  -> Make(ev.kind, ev.args, ev.fn, ev.graph, ev.val)
    [] ev.op = "set"   -> SetRoot(ev.id, ev.val)
    [] ev.op = "get"   -> Get(ev.id, ev.res, ev.evals)
    [] ev.op = "dump"  -> Dump(ev.graph)
    [] ev.op = "load"  -> Restore(ev.snap)
    [] OTHER           -> UNCHANGED lvars
Bad(ev) == \/ ev.op \in {"crash", "hang"}
           \/ ev.op = "get" /\ ~GetOk(ev.id, ev.res, ev.evals)

Init == LInit /\ l = 2 /\ verdict = "ok"
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
     IN IF Bad(ev) THEN verdict' = "bad" /\ UNCHANGED lvars /\ PrintT(<<"BAD", l, ev.op>>)
        ELSE /\ verdict' = "ok"
             /\ TLCSet(IF ev.op = "get" THEN 11 ELSE 13, TLCGet(IF ev.op = "get" THEN 11 ELSE 13) + 1)
             /\ IF ev.op \in {"begin", "end"} THEN g' = <<>> /\ root' = <<>> /\ cached' = {} /\ snaps' = <<>>
                ELSE Step(ev)
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
\* every remembered value is up to date by construction; what is remembered was computed from set roots
Consistent == \A i \in cached : Value(i) # NoValue
Counters == TLCSet(11, 0) /\ TLCSet(12, 0) /\ TLCSet(13, 0)
ASSUME Counters
Accepted == /\ PrintT(<<"COUNTS", TLCGet(11), TLCGet(12), TLCGet(13), TLCGet("stats").diameter>>)
            /\ TLCGet("stats").diameter = Len(Trace)
===============================================================================
