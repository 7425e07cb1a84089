-------------------------------- MODULE Scratch --------------------------------
(* C18: what scratch memory means.  Memory is a set of regions: the storage of
   each open scope, "s1", "s2", ..., and the blocks got from ordinary memory.
   A scope hands out pieces of regions that are open; pieces live until their
   scope ends or is released.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
VARIABLES scopes,  \* sequence of the open scopes: [region, size, hole] (hole: bytes [hole[1], hole[2]) are not for use)
          blocks,  \* live blocks of ordinary memory: [region, size]
          live     \* live pieces: [id, scope, region, off, size]
svars == <<scopes, blocks, live>>

Regions == {[region |-> scopes[k].region, size |-> scopes[k].size, hole |-> scopes[k].hole] : k \in 1..Len(scopes)}
           \cup {[region |-> b.region, size |-> b.size, hole |-> <<0, 0>>] : b \in blocks}
\* half open intervals meet
Meet(a, n, b, m) == a < b + m /\ b < a + n
InBounds(r, off, n) == \E x \in Regions : /\ x.region = r /\ off >= 0 /\ off + n <= x.size
                                          /\ n > 0 => ~Meet(off, n, x.hole[1], x.hole[2] - x.hole[1])
Disjoint(r, off, n) == \A p \in live : p.region = r /\ n > 0 /\ p.size > 0 => ~Meet(off, n, p.off, p.size)

SInit == scopes = <<>> /\ blocks = {} /\ live = {}
Enter(reg, size, hole) == scopes' = Append(scopes, [region |-> reg, size |-> size, hole |-> hole]) /\ UNCHANGED <<blocks, live>>
BlockAcquired(reg, size) == blocks' = blocks \cup {[region |-> reg, size |-> size]} /\ UNCHANGED <<scopes, live>>
BlockAcquiredOk(reg, size) == \A b \in blocks : b.region # reg
BlockFreedOk(reg, size) == [region |-> reg, size |-> size] \in blocks /\ \A p \in live : p.region # reg
BlockFreed(reg, size) == blocks' = {b \in blocks : b.region # reg} /\ UNCHANGED <<scopes, live>>
AllocOk(s, reg, off, n, mod) == mod = 0 /\ s \in 1..Len(scopes) /\ InBounds(reg, off, n) /\ Disjoint(reg, off, n)
Alloc(id, s, reg, off, n) == live' = live \cup {[id |-> id, scope |-> s, region |-> reg, off |-> off, size |-> n]} /\ UNCHANGED <<scopes, blocks>>
\* everything the innermost scope handed out is dead
Release == live' = {p \in live : p.scope # Len(scopes)} /\ UNCHANGED <<scopes, blocks>>
\* it ends: its storage is gone; ordinary memory is returned with the outermost scope
LeaveOk == Len(scopes) = 1 => blocks = {}
Leave == scopes' = SubSeq(scopes, 1, Len(scopes) - 1) /\ UNCHANGED <<blocks, live>>
\* design facts, checked on the machine and on every trace
Sound == /\ \A p, q \in live : p.id # q.id /\ p.region = q.region /\ p.size > 0 /\ q.size > 0 => ~Meet(p.off, p.size, q.off, q.size)
         /\ \A p \in live : InBounds(p.region, p.off, p.size)
===============================================================================
