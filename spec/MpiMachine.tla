------------------------------- MODULE MpiMachine ------------------------------
(* C17, the algorithm: every process runs the same program, a sequence of
   broadcasts and reductions with any roots and without barriers between them,
   over channels that keep the order between each pair of processes.  With
   Sync, a send waits until its message is taken (the strictest behaviour
   MPI_Send may have).  Checked for every interleaving: nothing deadlocks, no
   message is left over, and every result is the one Collective gives.         *)
EXTENDS Collective, TLC
CONSTANTS N, Len2, Sync
VARIABLES prog, pc, step, val, chan, out
vars == <<prog, pc, step, val, chan, out>>
P == 1..N
Ops == [kind : {"bcast", "reduce"}, root : 0..(N - 1)]
Own(p, i) == <<ToString(p) \o "." \o ToString(i)>>
Fake(p, root) == (N + (p - 1) - root) % N
\* the steps of one operation: <<"recv", from>>, <<"send", to>>; what a receive does depends on the operation
Bcast(p, root) ==
  LET k == Fake(p, root)
  IN (IF k # 0 THEN <<<<"recv", Proc(N, root, (k - 1) \div 2)>>>> ELSE <<>>)
     \o (IF 2 * k + 1 < N THEN <<<<"send", Proc(N, root, 2 * k + 1)>>>> ELSE <<>>)
     \o (IF 2 * k + 2 < N THEN <<<<"send", Proc(N, root, 2 * k + 2)>>>> ELSE <<>>)
Reduce(p, root) ==
  LET k == Fake(p, root)
  IN (IF 2 * k + 1 < N THEN <<<<"recv", Proc(N, root, 2 * k + 1)>>>> ELSE <<>>)
     \o (IF 2 * k + 2 < N THEN <<<<"recv", Proc(N, root, 2 * k + 2)>>>> ELSE <<>>)
     \o (IF k # 0 THEN <<<<"send", Proc(N, root, (k - 1) \div 2)>>>> ELSE <<>>)
Steps(p, op) == IF op.kind = "bcast" THEN Bcast(p, op.root) ELSE Reduce(p, op.root)

Init == /\ prog \in [1..Len2 -> Ops]
        /\ pc = [p \in P |-> 1] /\ step = [p \in P |-> 1]
        /\ val = [p \in P |-> Own(p, 1)]
        /\ chan = [p \in P |-> [q \in P |-> <<>>]]
        /\ out = [p \in P |-> <<>>]
Running(p) == pc[p] <= Len2
Mine(p) == Steps(p, prog[pc[p]])
Finish(p) == /\ Running(p) /\ step[p] > Len(Mine(p))
             /\ out' = [out EXCEPT ![p] = Append(@, val[p])]
             /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ step' = [step EXCEPT ![p] = 1]
             /\ val' = [val EXCEPT ![p] = Own(p, pc[p] + 1)]
             /\ UNCHANGED <<prog, chan>>
\* a message is [v, taken]; with Sync the sender goes on when it was taken
Send(p) == /\ Running(p) /\ step[p] <= Len(Mine(p)) /\ Mine(p)[step[p]][1] = "send"
           /\ LET q == Mine(p)[step[p]][2]
              IN /\ ~Sync \/ chan[p][q] = <<>>
                 /\ chan' = [chan EXCEPT ![p][q] = Append(@, val[p])]
           /\ step' = [step EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<prog, pc, val, out>>
Blocked(p) == Sync /\ \E q \in P : chan[p][q] # <<>>
Recv(p) == /\ Running(p) /\ step[p] <= Len(Mine(p)) /\ Mine(p)[step[p]][1] = "recv"
           /\ LET q == Mine(p)[step[p]][2]
              IN /\ chan[q][p] # <<>>
                 /\ val' = [val EXCEPT ![p] = IF prog[pc[p]].kind = "bcast" THEN Head(chan[q][p]) ELSE Combine(@, Head(chan[q][p]))]
                 /\ chan' = [chan EXCEPT ![q][p] = Tail(@)]
           /\ step' = [step EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<prog, pc, out>>
Next == \E p \in P : ~Blocked(p) /\ (Finish(p) \/ Send(p) \/ Recv(p))
Done == \A p \in P : pc[p] = Len2 + 1
\* nothing waits for a message that is never sent
Live == (\A p \in P : Blocked(p) \/ ~(ENABLED Finish(p) \/ ENABLED Send(p) \/ ENABLED Recv(p))) => Done /\ \A p, q \in P : chan[p][q] = <<>>
Right == \A p \in P : \A i \in 1..Len(out[p]) :
           LET op == prog[i]
               vals == [q \in P |-> Own(q, i)]
           IN IF op.kind = "bcast" THEN out[p][i] = vals[op.root + 1]
              ELSE p = op.root + 1 => out[p][i] = Reduced(N, op.root, vals)
Spec == Init /\ [][Next]_vars
===============================================================================
