------------------------------- MODULE CowTrace -------------------------------
(* C12: tensors are values.  The state is the visible value of every tensor
   object; a step changes only its destination, to what the specification says,
   whatever storage the objects share inside the library.  The machine that the
   library implements (shared storage, copied on write) is CowMachine; that
   machine refines this one.

   The driver logs the whole visible state after every step.                *)
EXTENDS TensorAlgebra, Json, IOUtils
CONSTANT Focal
VARIABLES l, vals, verdict
vars == <<l, vals, verdict>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Objects == 1..5

\* a logged object: either absent (ok = 2) or a tensor
Readable(r) == r.ok = 1 /\ r.exact = 1 /\ r.idx = 1 /\ Cardinality(ToSet(r.keys)) = Len(r.keys)
Ten(r) == [names |-> r.names, edges |-> r.edges,
           blk |-> [k \in ToSet(r.keys) |-> r.vals[CHOOSE i \in 1..Len(r.keys) : r.keys[i] = k]]]
Is(r, E) == Readable(r) /\ Ten(r) = E

PosKey(T, p) == [i \in 1..Len(T.names) |-> LET j == CHOOSE j \in 1..Len(p) : p[j][1] = T.names[i] IN p[j][2]]
PosIdx(T, p) == [i \in 1..Len(T.names) |-> LET j == CHOOSE j \in 1..Len(p) : p[j][1] = T.names[i] IN p[j][3]]

RECURSIVE Times(_, _)
Times(v, n) == IF n = 0 THEN VZero ELSE VAdd(Times(v, n - 1), v)
\* the n-th element in storage order
KeyLess(a, b) == \E i \in 1..Len(a) : SymLess(a[i], b[i]) /\ \A j \in 1..(i - 1) : a[j] = b[j]
Filled(T, first, step) ==
  LET ks == SortSeq(SetToSeq(DOMAIN T.blk), KeyLess)
      off == [i \in 1..Len(ks) |-> FoldLeft(LAMBDA a, b : a + b, 0, [j \in 1..(i - 1) |-> Len(T.blk[ks[j]])])]
  IN [T EXCEPT !.blk = [k \in DOMAIN T.blk |->
        LET i == CHOOSE i \in 1..Len(ks) : ks[i] = k
        IN [p \in 1..Len(T.blk[k]) |-> VAdd(first, Times(step, off[i] + p - 1))]]]

Expected(ev) ==
  CASE ev.op = "cowrename"   -> RenameEdge(Ten(vals[ev.src]), ev.ren)
    [] ev.op = "cowsetat"    -> LET T == Ten(vals[ev.dst])
                                IN [T EXCEPT !.blk[PosKey(T, ev.pos)][Ravel(Dims(T.edges, PosKey(T, ev.pos)), PosIdx(T, ev.pos)) + 1] = ev.val]
    [] ev.op = "cowsetblock" -> LET T == Ten(vals[ev.dst]) k == PosKey(T, ev.key)
                                IN [T EXCEPT !.blk[k] = [p \in 1..Len(T.blk[k]) |-> VAdd(ev.val, Times(VOne, p - 1))]]
    [] ev.op = "cowfill"     -> Filled(Ten(vals[ev.src]), ev.first, ev.step)
    [] ev.op = "cowadd"      -> MapValues(Ten(vals[ev.src]), LAMBDA v : VAdd(v, ev.c))
    [] ev.op = "cowmul"      -> MapValues(Ten(vals[ev.src]), LAMBDA v : VMul(v, ev.c))
    [] ev.op = "cowinplace"  -> Elementwise(Ten(vals[ev.a]), Ten(vals[ev.b]),
                                  LAMBDA x, y : IF ev.f = "add" THEN VAdd(x, y) ELSE VSub(x, y))

Frame(ev, changed) == \A i \in Objects \ changed : ev.all[i] = vals[i]

Verdict(ev) ==
  LET ok == ev.ok = 1 IN
  CASE ev.op \in {"cowstart", "cowfresh"} -> "skip"
    [] ev.op = "cowcopy" -> IF ok /\ Frame(ev, {ev.dst}) /\ ev.all[ev.dst] = vals[ev.src] THEN "ok" ELSE "bad"
    [] ev.op = "cowmove" -> IF ok /\ Frame(ev, {ev.dst, ev.src}) /\ ev.all[ev.dst] = vals[ev.src] THEN "ok" ELSE "bad"
    [] ev.op = "cowdrop" -> IF ok /\ Frame(ev, {ev.dst}) /\ ev.all[ev.dst].ok = 2 THEN "ok" ELSE "bad"
    [] ev.op = "cowread" -> IF Frame(ev, {}) THEN "ok" ELSE "bad"
    [] ev.op = "cowreject" -> IF Frame(ev, {}) THEN "ok" ELSE "bad"
    [] ev.op = "cowother" -> IF Frame(ev, IF ok THEN {ev.dst} ELSE {}) THEN "ok" ELSE "bad"
    [] ev.op = "cowinplace" /\ ~InplaceLegal(Ten(vals[ev.a]), Ten(vals[ev.b])) -> IF Frame(ev, {}) THEN "ok" ELSE "bad"
    [] OTHER -> IF ok /\ Frame(ev, {ev.dst}) /\ Is(ev.all[ev.dst], Expected(ev)) THEN "ok" ELSE "bad"

Judge(ev) ==
  IF ev.op \in {"crash", "hang"} THEN (IF ev.in \in Focal THEN "bad" ELSE "skip")
  ELSE IF ev.op \in {"begin", "end"} THEN "skip"
  ELSE IF \E i \in Objects : vals[i].ok = 1 /\ ~Readable(vals[i]) THEN "skip"
  ELSE Verdict(ev)

Nothing == [i \in Objects |-> [ok |-> 2]]
Init == l = 2 /\ vals = Nothing /\ verdict = "ok"
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
     IN /\ verdict' = Judge(ev)
        /\ vals' = IF "all" \in DOMAIN ev THEN ev.all ELSE Nothing
        /\ IF verdict' = "bad" THEN PrintT(<<"BAD", l, ev.op>>) ELSE TRUE
        /\ TLCSet(IF verdict' = "ok" THEN 11 ELSE 13, TLCGet(IF verdict' = "ok" THEN 11 ELSE 13) + 1)
Spec == Init /\ [][Next]_vars

Conforms == verdict # "bad"
Counters == TLCSet(11, 0) /\ TLCSet(12, 0) /\ TLCSet(13, 0)
ASSUME Counters
Accepted == /\ PrintT(<<"COUNTS", TLCGet(11), TLCGet(12), TLCGet(13), TLCGet("stats").diameter>>)
            /\ TLCGet("stats").diameter = Len(Trace)
===============================================================================
