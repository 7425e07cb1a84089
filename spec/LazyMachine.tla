------------------------------ MODULE LazyMachine -----------------------------
(* C16, the algorithm: every node has a slot for its value and the list of the
   nodes made from it.  Setting a root empties its slot and, recursively, the
   slots downstream; get fills the slots upstream that are empty; a snapshot is
   a copy of the slots.  Checked exhaustively to refine LazyGraph on every
   graph of Size nodes: the slot of a node is either empty or holds the value
   LazyGraph gives the node, and the filled slots are `cached`.                *)
EXTENDS LazyGraph, TLC
CONSTANTS Size,     \* nodes
          Vals,     \* values a root is set to
          MaxSnap,  \* snapshots taken at most
          MaxOps    \* length of histories

VARIABLES slot, made, ops
mvars == <<g, root, cached, snaps, slot, made, ops>>
None == -2

Kids(i) == {j \in 1..Len(g) : i \in ToSet(g[j].args)}
\* lazy_base::unset: release the node, then the same for every downstream node
RECURSIVE Unset(_, _)
Unset(s, i) ==
  LET s1 == IF g[i].kind = "path" THEN s ELSE [s EXCEPT ![i] = None]
      RECURSIVE Fold(_, _)
      Fold(t, ks) == IF ks = {} THEN t ELSE LET k == Min(ks) IN Fold(Unset(t, k), ks \ {k})
  IN Fold(s1, Kids(i))
\* node::get: <<slots afterwards, value, nodes evaluated>>
RECURSIVE Eval(_, _)
Eval(s, i) ==
  IF g[i].kind = "root" THEN <<s, s[i], <<>>>>
  ELSE IF g[i].kind = "node" /\ s[i] # None THEN <<s, s[i], <<>>>>
  ELSE LET RECURSIVE Args(_, _, _, _)
           Args(t, k, xs, ev) == IF k > Len(g[i].args) THEN <<t, xs, ev>>
                                 ELSE LET r == Eval(t, g[i].args[k]) IN Args(r[1], k + 1, Append(xs, r[2]), ev \o r[3])
           a == Args(s, 1, <<>>, <<>>)
           v == Apply(g[i].fn, a[2])
       IN IF g[i].kind = "path" THEN <<a[1], v, a[3]>>
          ELSE <<[Unset(a[1], i) EXCEPT ![i] = v], v, Append(a[3], i)>>

\* all graphs: every node a root, or a node or path of one or two older ones
Shapes(i) == {[kind |-> "root", args |-> <<>>]}
             \cup {[kind |-> k, args |-> a] : k \in IF i = 1 THEN {} ELSE {"node", "path"},
                                              a \in {<<x>> : x \in 1..(i-1)} \cup {<<x, y>> : x \in 1..(i-1), y \in 1..(i-1)}}
MInit == LInit /\ slot = <<>> /\ made = <<>> /\ ops = 0
MMake == /\ Len(g) < Size
         /\ \E sh \in Shapes(Len(g) + 1), v \in Vals \cup {NoValue} :
              /\ sh.kind # "root" => v = NoValue
              /\ Make(sh.kind, sh.args, Len(g) * 7 + 1, 1, v)
              /\ slot' = Append(slot, IF sh.kind = "root" /\ v # NoValue THEN v ELSE None)
         /\ UNCHANGED <<made, ops>>
Work == Len(g) = Size /\ ops < MaxOps /\ ops' = ops + 1
MSet == Work /\ \E i \in 1..Size, v \in Vals \cup {NoValue} :
          /\ SetRoot(i, v)
          /\ slot' = [Unset(slot, i) EXCEPT ![i] = IF v = NoValue THEN None ELSE v]
          /\ UNCHANGED made
MGet == Work /\ \E i \in 1..Size :
          /\ Value(i) # NoValue
          /\ LET r == Eval(slot, i)
             IN /\ Assert(GetOk(i, r[2], r[3]), <<"nodes evaluated", i, r, cached>>)
                /\ Get(i, r[2], r[3])
                /\ slot' = r[1]
          /\ UNCHANGED made
MDump == Work /\ Len(snaps) < MaxSnap /\ Dump(1) /\ made' = Append(made, slot) /\ UNCHANGED slot
MLoad == Work /\ \E s \in 1..Len(snaps) :
          /\ Restore(s)
          /\ slot' = [i \in 1..Size |-> IF g[i].kind = "path" THEN slot[i] ELSE made[s][i]]
          /\ UNCHANGED made
MNext == MMake \/ MSet \/ MGet \/ MDump \/ MLoad
MSpec == MInit /\ [][MNext]_mvars

Refines == \A i \in 1..Len(g) :
             /\ g[i].kind = "root" => slot[i] = (IF root[i] = NoValue THEN None ELSE root[i])
             /\ g[i].kind = "node" => /\ slot[i] # None => slot[i] = Value(i)
                                      /\ (slot[i] # None) = (i \in cached)
             /\ g[i].kind = "path" => slot[i] = None
\* what is remembered has everything it was computed from remembered too
Closed == \A i \in cached : \A j \in Upstream(i) : g[j].kind = "node" => j \in cached
===============================================================================
