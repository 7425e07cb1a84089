------------------------------ MODULE NameMachine -----------------------------
(* C15, the algorithm: a table from strings to numbers, a list from numbers to
   strings and a counter; a name is a number.  Two processes start with the same
   table; one may save its table with its names and the other, before it makes
   names of its own, load it.  Checked exhaustively: a name always stands for
   the string it was made from and equal names are equal strings.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Strings, MaxNames
VARIABLES tab,      \* per process [ids: string -> number, names: sequence, count]
          made,     \* per process the names made: [id, str]
          saved     \* "none" or [tab, made]
vars == <<tab, made, saved>>
P == {1, 2}
Start == [ids |-> [s \in {""} |-> 0], names |-> <<"">>, count |-> 1]
None == [tab |-> Start, made |-> {}, set |-> FALSE]
Init == tab = [p \in P |-> Start] /\ made = [p \in P |-> {}] /\ saved = None
Intern(t, s) == IF s \in DOMAIN t.ids THEN t
                ELSE [ids |-> [x \in DOMAIN t.ids \cup {s} |-> IF x = s THEN t.count ELSE t.ids[x]],
                      names |-> Append(t.names, s), count |-> t.count + 1]
Make(p, s) == /\ Cardinality(made[p]) < MaxNames
              /\ LET t == Intern(tab[p], s)
                 IN /\ tab' = [tab EXCEPT ![p] = t]
                    /\ made' = [made EXCEPT ![p] = @ \cup {[id |-> t.ids[s], str |-> s]}]
              /\ UNCHANGED saved
Save == saved' = [tab |-> tab[1], made |-> made[1], set |-> TRUE] /\ UNCHANGED <<tab, made>>
Load == /\ saved.set /\ made[2] = {}
        /\ tab' = [tab EXCEPT ![2] = saved.tab] /\ made' = [made EXCEPT ![2] = saved.made] /\ UNCHANGED saved
Next == (\E p \in P, s \in Strings : Make(p, s)) \/ Save \/ Load
Spec == Init /\ [][Next]_vars
Faithful == \A p \in P : \A n \in made[p] : tab[p].names[n.id + 1] = n.str
Unique == \A p \in P : \A m, n \in made[p] : (m.id = n.id) = (m.str = n.str)
Bijection == \A p \in P : /\ Len(tab[p].names) = tab[p].count
                          /\ \A s \in DOMAIN tab[p].ids : tab[p].names[tab[p].ids[s] + 1] = s
                          /\ \A k \in 1..tab[p].count : tab[p].ids[tab[p].names[k]] = k - 1
===============================================================================
