------------------------------ MODULE LazyScripts -----------------------------
(* Every history of the lazy graph within the bounds, printed for the driver to
   replay on the real library (`lazy_driver script`).                          *)
EXTENDS LazyMachine
VARIABLE hist
svars == <<g, root, cached, snaps, slot, made, ops, hist>>
S(x) == ToString(x)
SInit == MInit /\ hist = ""
Name(sh) == IF sh.kind = "root" THEN "r" ELSE (IF sh.kind = "node" THEN "n" ELSE "p")
Join(a) == IF Len(a) = 0 THEN "" ELSE IF Len(a) = 1 THEN " " \o S(a[1]) ELSE " " \o S(a[1]) \o " " \o S(a[2])
\* the newest node, as made
Newest == g'[Len(g')]
SMake == MMake /\ hist' = hist \o Name(Newest) \o " " \o S(root'[Len(g')]) \o Join(Newest.args) \o ";"
SNext == \/ SMake
         \/ Work /\ UNCHANGED made /\ \E i \in 1..Size : /\ g[i].kind = "root"
                                       /\ \E v \in Vals \cup {NoValue} : /\ SetRoot(i, v)
                                                                        /\ slot' = [Unset(slot, i) EXCEPT ![i] = IF v = NoValue THEN None ELSE v]
                                                                        /\ hist' = hist \o "s " \o S(i) \o " " \o S(v) \o ";"
         \/ Work /\ UNCHANGED made /\ \E i \in 1..Size :
                /\ Value(i) # NoValue
                /\ Get(i, Value(i), SetToSeq(Needed(i)))
                /\ slot' = Eval(slot, i)[1]
                /\ hist' = hist \o "g " \o S(i) \o ";"
         \/ MDump /\ hist' = hist \o "d;"
         \/ Work /\ UNCHANGED made /\ \E s \in 1..Len(snaps) :
                /\ Restore(s)
                /\ slot' = [i \in 1..Size |-> IF g[i].kind = "path" THEN slot[i] ELSE made[s][i]]
                /\ hist' = hist \o "l " \o S(s) \o ";"
SSpec == SInit /\ [][SNext]_svars
Emit == ops = MaxOps => PrintT("S:" \o hist)
===============================================================================
