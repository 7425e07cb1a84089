----------------------------- MODULE ScratchMachine ---------------------------
(* C18, the algorithm: each scope has a current piece of memory (region,
   position, bytes left); an allocation that does not fit, with its alignment
   gap, takes a block of the next size from the enclosing scope or, outermost,
   from ordinary memory.  Checked exhaustively against Scratch: every allocation
   the algorithm makes is one Scratch allows.  Start addresses of the scopes are
   arbitrary (Shift), so alignment gaps of every size occur.                   *)
EXTENDS Scratch
CONSTANTS BufSizes, Sizes, Aligns, MaxAlign, Depth, MaxAllocs, FirstNext
VARIABLES m,      \* per scope [cur: region, pos, left, next, base: address of region offset 0 modulo MaxAlign, held: blocks]
          nid, nblk, hist
mvars == <<scopes, blocks, live, m, nid, nblk, hist>>
MInit == SInit /\ m = <<>> /\ nid = 0 /\ nblk = 0 /\ hist = 0
RECURSIVE Grow(_, _)
Grow(n, want) == IF n < want THEN Grow(2 * n, want) ELSE n
Gap(addr, align) == (align - (addr % align)) % align
Name(k) == "s" \o ToString(k)
\* allocate(bytes, align) of scope s, on state <<m, blocks, nblk>>: new state, region, offset, address modulo
RECURSIVE Do(_, _, _, _)
Do(st, s, bytes0, align) ==
  LET bytes == IF bytes0 = 0 THEN 1 ELSE bytes0
      x == st.m[s]
      gap == Gap(x.base + x.pos, align)
      room == IF x.left <= gap THEN 0 ELSE x.left - gap
  IN IF room >= bytes
     THEN [st EXCEPT !.m = [st.m EXCEPT ![s] = [x EXCEPT !.pos = @ + gap + bytes, !.left = @ - gap - bytes]],
                     !.region = x.cur, !.off = x.pos + gap, !.addr = x.base + x.pos + gap]
     ELSE LET n == Grow(x.next, bytes)
              up == IF s = 1 THEN [st EXCEPT !.blocks = @ \cup {[region |-> "b" \o ToString(st.nblk), size |-> n]}, !.nblk = @ + 1,
                                             !.region = "b" \o ToString(st.nblk), !.off = 0, !.addr = 0]
                    ELSE Do(st, s - 1, n, MaxAlign)
              y == [x EXCEPT !.cur = up.region, !.pos = up.off + bytes, !.left = n - bytes, !.next = 2 * n, !.base = (up.addr - up.off) % MaxAlign]
          IN [up EXCEPT !.m = [up.m EXCEPT ![s] = y], !.region = up.region, !.off = up.off, !.addr = up.addr]
State == [m |-> m, blocks |-> blocks, nblk |-> nblk, region |-> "", off |-> 0, addr |-> 0]
MEnter == /\ Len(scopes) < Depth
          /\ \E size \in BufSizes, shift \in 0..(MaxAlign - 1) :
               /\ Enter(Name(Len(scopes) + 1), size, <<0, 0>>)
               /\ m' = Append(m, [cur |-> Name(Len(scopes) + 1), pos |-> 0, left |-> size, next |-> Grow(FirstNext, size), base |-> shift])
          /\ UNCHANGED <<nid, nblk, hist>>
MAlloc == /\ hist < MaxAllocs
          /\ \E s \in 1..Len(scopes), n \in Sizes, a \in Aligns :
               LET r == Do(State, s, n, a)
               IN /\ blocks' = r.blocks /\ m' = r.m /\ nblk' = r.nblk /\ nid' = nid + 1 /\ hist' = hist + 1
                  /\ live' = live \cup {[id |-> nid, scope |-> s, region |-> r.region, off |-> r.off, size |-> n]}
                  /\ UNCHANGED scopes
                  /\ Assert(r.addr % a = 0, <<"alignment", r>>)
MLeave == /\ Len(scopes) > 0
          /\ live' = {p \in live : p.scope # Len(scopes)}
          /\ scopes' = SubSeq(scopes, 1, Len(scopes) - 1)
          /\ m' = SubSeq(m, 1, Len(m) - 1)
          /\ blocks' = IF Len(scopes) = 1 THEN {} ELSE blocks
          /\ UNCHANGED <<nid, nblk, hist>>
MNext == MEnter \/ MAlloc \/ MLeave
MSpec == MInit /\ [][MNext]_mvars
\* every step is a step Scratch allows
Clean == Len(scopes) = 0 => blocks = {} /\ live = {}
===============================================================================
