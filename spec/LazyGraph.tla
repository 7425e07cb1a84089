------------------------------- MODULE LazyGraph ------------------------------
(* C16: what a lazy graph means.  Nodes are numbered 1, 2, ... in the order they
   are made; the arguments of a node are older nodes.  A root holds a value or
   none; a node or path has the value of its function on the values of its
   arguments.  `cached` is the set of nodes whose value is remembered.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

VARIABLES g,        \* sequence of [kind, args, fn, graph]
          root,     \* value of the roots, NoValue if none is set
          cached,   \* nodes whose value is remembered
          snaps     \* sequence of snapshots [graph, n, root, cached]
lvars == <<g, root, cached, snaps>>

NoValue == -1
Modulus == 1009
Apply(fn, xs) == (fn + FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(xs) |-> (2 * i + 1) * xs[i]])) % Modulus

\* values of all nodes; NoValue where a root that is needed is not set
Values(gg, rr) ==
  LET val[i \in 1..Len(gg)] ==
        IF gg[i].kind = "root" THEN rr[i]
        ELSE LET xs == [k \in 1..Len(gg[i].args) |-> val[gg[i].args[k]]]
             IN IF \E k \in 1..Len(xs) : xs[k] = NoValue THEN NoValue ELSE Apply(gg[i].fn, xs)
  IN [i \in 1..Len(gg) |-> val[i]]
Value(i) == Values(g, root)[i]

\* everything i is computed from, with i
Upstream(i) ==
  LET up[j \in 1..i] == {j} \cup UNION {up[g[j].args[k]] : k \in 1..Len(g[j].args)}
  IN up[i]
Downstream(i) == {j \in 1..Len(g) : j # i /\ i \in Upstream(j)}
Nodes == {i \in 1..Len(g) : g[i].kind = "node"}
\* what has to be computed for the value of i
Needed(i) == {j \in Upstream(i) : g[j].kind = "node"} \ cached

LInit == g = <<>> /\ root = <<>> /\ cached = {} /\ snaps = <<>>
Make(kind, args, fn, graph, v) ==
  /\ g' = Append(g, [kind |-> kind, args |-> args, fn |-> fn, graph |-> graph])
  /\ root' = Append(root, IF kind = "root" THEN v ELSE NoValue)
  /\ UNCHANGED <<cached, snaps>>
SetRoot(i, v) ==        \* v = NoValue: the root is reset
  /\ g[i].kind = "root"
  /\ root' = [root EXCEPT ![i] = v]
  /\ cached' = cached \ Downstream(i)
  /\ UNCHANGED <<g, snaps>>
\* evals: the nodes whose functions ran
GetOk(i, res, evals) ==
  /\ Value(i) # NoValue
  /\ res = Value(i)
  /\ IsInjective(evals) /\ ToSet(evals) = Needed(i)
Get(i, res, evals) ==
  /\ GetOk(i, res, evals)
  /\ cached' = cached \cup Needed(i)
  /\ UNCHANGED <<g, root, snaps>>
Dump(graph) ==
  /\ snaps' = Append(snaps, [graph |-> graph, n |-> Len(g), root |-> root, cached |-> cached])
  /\ UNCHANGED <<g, root, cached>>
Mine(s) == {i \in 1..snaps[s].n : g[i].graph = snaps[s].graph}
Restore(s) ==
  /\ root' = [i \in 1..Len(g) |-> IF i \in Mine(s) THEN snaps[s].root[i] ELSE root[i]]
  /\ cached' = (cached \ Mine(s)) \cup (snaps[s].cached \cap Mine(s))
  /\ UNCHANGED <<g, snaps>>
===============================================================================
