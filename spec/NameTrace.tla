------------------------------- MODULE NameTrace -------------------------------
(* C15: an interned name is the string it was made from.
   State: `str`, the strings of the names made so far (strings are logged in
   hexadecimal), and `order`, the distinct strings in the order of their names
   as observed so far.  The specification does not say which order that is, only
   that it is a strict total order which never changes.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
CONSTANT Focal
VARIABLES str, order, saved, l, verdict
vars == <<str, order, saved, l, verdict>>
nvars == <<str, order, saved>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

Pos(o, s) == CHOOSE k \in 1..Len(o) : o[k] = s
Known(o, s) == \E k \in 1..Len(o) : o[k] = s

\* what the six comparisons of name a with name b must say, given the order
Cmp(o, a, b) ==
  LET x == Pos(o, a)  y == Pos(o, b)
      B(p) == IF p THEN 1 ELSE 0
  IN <<B(x = y), B(x # y), B(x < y), B(x > y), B(x <= y), B(x >= y)>>

\* a new name for string s; ev.cmp[k] is the six comparisons with name k
\* the strings already ordered that come before s: a prefix of the order
Below(ev) == {str[k] : k \in {q \in 1..Len(str) : ev.cmp[q][4] = 1}}
Placed(ev) == LET n == Cardinality(Below(ev)) IN InsertAt(order, n + 1, ev.str)
MakeOk(ev) ==
  /\ ev.conv = ev.str /\ ev.text = ev.str
  /\ Len(ev.cmp) = Len(str)
  /\ LET o == IF Known(order, ev.str) THEN order ELSE Placed(ev)
     IN /\ IsInjective(o)
        /\ \A k \in 1..Len(str) : ev.cmp[k] = Cmp(o, ev.str, str[k])
Make(ev) ==
  /\ str' = Append(str, ev.str)
  /\ order' = IF Known(order, ev.str) THEN order ELSE Placed(ev)
  /\ UNCHANGED saved
RecheckOk(ev) == ev.conv = str[ev.a] /\ ev.cmp = Cmp(order, str[ev.a], str[ev.b])
\* a saved table restored in another process: the same names
Save == saved' = <<str, order>> /\ UNCHANGED <<str, order>>
Restore == str' = saved[1] /\ order' = saved[2] /\ UNCHANGED saved
RestoreOk(ev) == ev.convs = saved[1]

Bad(ev) == CASE ev.op \in {"crash", "hang"} -> TRUE
             [] ev.op = "name"    -> ~MakeOk(ev)
             [] ev.op = "recheck" -> ~RecheckOk(ev)
             [] ev.op = "restore" -> ~RestoreOk(ev)
             [] OTHER -> FALSE
Init == str = <<>> /\ order = <<>> /\ saved = <<<<>>, <<>>>> /\ l = 2 /\ verdict = "ok"
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
         c == IF ev.op \in Focal THEN 11 ELSE 13
     IN IF Bad(ev) THEN verdict' = "bad" /\ UNCHANGED nvars /\ PrintT(<<"BAD", l, ev.op>>)
        ELSE /\ verdict' = "ok"
             /\ TLCSet(c, TLCGet(c) + 1)
             /\ CASE ev.op = "begin" -> str' = <<>> /\ order' = <<>> /\ saved' = <<<<>>, <<>>>>
                  [] ev.op = "name" -> Make(ev)
                  [] ev.op = "save" -> Save
                  [] ev.op = "restore" -> Restore
                  [] OTHER -> UNCHANGED nvars
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
OrderSound == ToSet(order) = ToSet(str) /\ IsInjective(order)
ASSUME TLCSet(11, 0) /\ TLCSet(12, 0) /\ TLCSet(13, 0)
Accepted == /\ PrintT(<<"COUNTS", TLCGet(11), TLCGet(12), TLCGet(13), TLCGet("stats").diameter>>)
            /\ TLCGet("stats").diameter = Len(Trace)
===============================================================================
