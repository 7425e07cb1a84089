------------------------------- MODULE Collective ------------------------------
(* C17: what the collective operations mean.  Processes are 1..size; the rank of
   process p is p - 1.  A combined value is a sequence of symbols: the function
   of a and b is "(" a b ")".                                                   *)
EXTENDS Integers, Sequences, FiniteSets
Combine(a, b) == <<"(">> \o a \o b \o <<")">>
\* processes are numbered from the root on: 0 is the root, the sons of k are
\* 2k + 1 and 2k + 2; a process combines its own value with the result of its
\* left and then of its right subtree
Proc(size, root, k) == ((k + root) % size) + 1
RECURSIVE Tree(_, _, _, _)
Tree(size, root, vals, k) ==
  LET own == vals[Proc(size, root, k)]
      l == 2 * k + 1
      r == 2 * k + 2
      a == IF l < size THEN Combine(own, Tree(size, root, vals, l)) ELSE own
  IN IF r < size THEN Combine(a, Tree(size, root, vals, r)) ELSE a
Reduced(size, root, vals) == Tree(size, root, vals, 0)
===============================================================================
