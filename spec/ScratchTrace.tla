------------------------------ MODULE ScratchTrace ----------------------------
(* Trace validation of pmr_resource.hpp against Scratch. *)
EXTENDS Scratch, Json, IOUtils
CONSTANT Focal
VARIABLES l, verdict
vars == <<scopes, blocks, live, l, verdict>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ok(ev) ==
  CASE ev.op \in {"crash", "hang"} -> FALSE
    [] ev.op = "enter"  -> ev.cur = Len(scopes) + 1
    [] ev.op = "get"    -> BlockAcquiredOk(ev.region, ev.size)
    [] ev.op = "free"   -> BlockFreedOk(ev.region, ev.size)
    [] ev.op = "alloc"  -> AllocOk(ev.scope, ev.region, ev.off, ev.size, ev.mod)
    [] ev.op = "released" -> Len(scopes) = 1 => blocks = {}
    [] ev.op = "left"   -> LeaveOk /\ ev.cur = Len(scopes) - 1
    [] ev.op = "check"  -> ev.bad = 0 /\ ev.cur = Len(scopes)
    \* a library operation leaves the scopes and ordinary memory as they were
    [] ev.op = "lib"    -> ev.cur = Len(scopes) /\ (Len(scopes) = 0 => blocks = {})
    [] ev.op = "kept"   -> ev.before = ev.after
    [] OTHER -> TRUE
Step(ev) ==
  CASE ev.op = "begin"  -> scopes' = <<>> /\ blocks' = {} /\ live' = {}
    [] ev.op = "enter"  -> Enter(ev.region, ev.size, ev.hole)
    [] ev.op = "get"    -> BlockAcquired(ev.region, ev.size)
    [] ev.op = "free"   -> BlockFreed(ev.region, ev.size)
    [] ev.op = "alloc"  -> Alloc(ev.id, ev.scope, ev.region, ev.off, ev.size)
    [] ev.op \in {"release", "leave"} -> Release
    [] ev.op = "left"   -> Leave
    [] OTHER -> UNCHANGED svars
Init == SInit /\ l = 2 /\ verdict = "ok"
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
         c == IF ev.op \in Focal THEN 11 ELSE 13
     IN IF ~Ok(ev) THEN verdict' = "bad" /\ UNCHANGED svars /\ PrintT(<<"BAD", l, ev.op>>)
        ELSE verdict' = "ok" /\ TLCSet(c, TLCGet(c) + 1) /\ Step(ev)
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
ASSUME TLCSet(11, 0) /\ TLCSet(12, 0) /\ TLCSet(13, 0)
Accepted == /\ PrintT(<<"COUNTS", TLCGet(11), TLCGet(12), TLCGet(13), TLCGet("stats").diameter>>)
            /\ TLCGet("stats").diameter = Len(Trace)
===============================================================================
