---------------------------- MODULE TensorAlgebra ----------------------------
(* The mathematical meaning of TAT's (possibly fermionic, symmetric) tensors
   and of every public operation on them.

   A tensor is a record
     names : sequence of edge names
     edges : sequence of edges; an edge is << arrow, segments >> and a segment
             << symmetry, dimension >>, segments sorted by symmetry
     blk   : function from the symmetry of every edge (a "block") to the
             row-major sequence of the values of that block
   and its blocks are exactly the symmetry combinations that sum to zero.

   Scalars are integers, or pairs << re, im >> when Cplx is TRUE, so that the
   meaning of an operation is exact.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Kind,    \* "No" "Z2" "U1" "Fermi" "FermiZ2" "FermiU1"
          Cplx     \* scalars are complex

------------------------------------------------------------------------------
(* Symmetries *)
IsFermi == Kind \in {"Fermi", "FermiZ2", "FermiU1"}
NComp   == IF Kind = "No" THEN 0 ELSE IF Kind \in {"Z2", "U1", "Fermi"} THEN 1 ELSE 2
IsZ2Comp(i) == Kind = "Z2" \/ (Kind = "FermiZ2" /\ i = 2)
AddC(i, x, y) == IF IsZ2Comp(i) THEN (x + y) % 2 ELSE x + y
NegC(i, x)    == IF IsZ2Comp(i) THEN x ELSE -x

SymZero == IF NComp = 0 THEN <<>> ELSE IF NComp = 1 THEN <<0>> ELSE <<0, 0>>
SymAdd(a, b) == IF NComp = 0 THEN <<>>
                ELSE IF NComp = 1 THEN <<AddC(1, a[1], b[1])>>
                ELSE <<AddC(1, a[1], b[1]), AddC(2, a[2], b[2])>>
SymNeg(a) == IF NComp = 0 THEN <<>>
             ELSE IF NComp = 1 THEN <<NegC(1, a[1])>>
             ELSE <<NegC(1, a[1]), NegC(2, a[2])>>
SymLess(a, b) == IF NComp = 0 THEN FALSE
                 ELSE IF NComp = 1 THEN a[1] < b[1]
                 ELSE a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SymSum(k) == FoldLeft(SymAdd, SymZero, k)
Odd(s) == IF IsFermi THEN s[1] % 2 # 0 ELSE FALSE

------------------------------------------------------------------------------
(* Scalars *)
VZero == IF Cplx THEN <<0, 0>> ELSE 0
VOne  == IF Cplx THEN <<1, 0>> ELSE 1
VAdd(a, b) == IF Cplx THEN <<a[1] + b[1], a[2] + b[2]>> ELSE a + b
VSub(a, b) == IF Cplx THEN <<a[1] - b[1], a[2] - b[2]>> ELSE a - b
VMul(a, b) == IF Cplx THEN <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>> ELSE a * b
VNeg(a)    == IF Cplx THEN <<-a[1], -a[2]>> ELSE -a
VConj(a)   == IF Cplx THEN <<a[1], -a[2]>> ELSE a
VReal(a)   == IF Cplx THEN <<a[1], 0>> ELSE a
VNormSq(a) == IF Cplx THEN a[1] * a[1] + a[2] * a[2] ELSE a * a
VSum(seq)  == FoldLeft(VAdd, VZero, seq)
Sgn(neg, v) == IF neg THEN VNeg(v) ELSE v
AbsI(a)    == IF a < 0 THEN -a ELSE a

------------------------------------------------------------------------------
(* Edges and row-major positions *)
DimOf(e, s) == LET i == CHOOSE j \in 1..Len(e[2]) : e[2][j][1] = s IN e[2][i][2]
HasSym(e, s) == \E j \in 1..Len(e[2]) : e[2][j][1] = s
SortSegs(segs) == SortSeq(segs, LAMBDA a, b : SymLess(a[1], b[1]))
ArrowValid(e) == IF IsFermi THEN \E j \in 1..Len(e[2]) : e[2][j][1][1] # 0 ELSE FALSE

\* every combination of symmetries, in lexicographic order
RECURSIVE Combos(_)
Combos(es) ==
  IF es = <<>> THEN << <<>> >>
  ELSE LET r == TLCEval(Combos(Tail(es)))
           h == Head(es)[2]
       IN  FlattenSeq([i \in 1..Len(h) |-> [j \in 1..Len(r) |-> <<h[i][1]>> \o r[j]]])

ZeroCombos(es) == SelectSeq(Combos(es), LAMBDA k : SymSum(k) = SymZero)

Dims(es, k) == TLCEval([i \in 1..Len(es) |-> DimOf(es[i], k[i])])
Prod(d) == FoldLeft(LAMBDA a, b : a * b, 1, d)
RECURSIVE RavelFrom(_, _, _, _)
RavelFrom(d, x, i, acc) == IF i > Len(d) THEN acc ELSE RavelFrom(d, x, i + 1, acc * d[i] + x[i])
Ravel(d, x) == RavelFrom(d, x, 1, 0)
Strides(d) == TLCEval([i \in 1..Len(d) |-> Prod(SubSeq(d, i + 1, Len(d)))])
UnravelS(d, s, p) == TLCEval([i \in 1..Len(d) |-> (p \div s[i]) % d[i]])
Unravel(d, p) == UnravelS(d, Strides(d), p)

At(T, k, x) == T.blk[k][Ravel(Dims(T.edges, k), x) + 1]

\* a tensor given by a formula; F(k, x) is the element at positions x of block k
Make(names, es, F(_, _)) ==
  [ names |-> names,
    edges |-> es,
    blk   |-> TLCEval([k \in ToSet(ZeroCombos(es)) |->
                 LET d == Dims(es, k)
                     s == Strides(d)
                 IN  TLCEval([p \in 1..Prod(d) |-> F(k, UnravelS(d, s, p - 1))])]) ]

\* symmetries that occur in no block are removed from the edges
Prune(T) ==
  [ T EXCEPT !.edges =
      TLCEval([i \in 1..Len(T.edges) |->
         << T.edges[i][1],
            SelectSeq(T.edges[i][2], LAMBDA g : \E k \in DOMAIN T.blk : k[i] = g[1]) >>]) ]

WellFormed(T) ==
  /\ Len(T.names) = Len(T.edges)
  /\ Cardinality(ToSet(T.names)) = Len(T.names)
  /\ DOMAIN T.blk = ToSet(ZeroCombos(T.edges))
  /\ \A k \in DOMAIN T.blk : Len(T.blk[k]) = Prod(Dims(T.edges, k))
  /\ \A i \in 1..Len(T.edges) : \A j \in 1..Len(T.edges[i][2]) :
        /\ \E k \in DOMAIN T.blk : k[i] = T.edges[i][2][j][1]
        /\ j > 1 => SymLess(T.edges[i][2][j - 1][1], T.edges[i][2][j][1])

IndexOfName(T, n) == CHOOSE i \in 1..Len(T.names) : T.names[i] = n
HasName(T, n) == n \in ToSet(T.names)
EdgeOf(T, n) == T.edges[IndexOfName(T, n)]

------------------------------------------------------------------------------
(* Parity of the odd edges *)
\* number of exchanged odd pairs when the edges are rearranged: src[i] is the
\* old position of the edge at new position i, k the symmetries in new order
SwapOdd(k, src) ==
  IsFermi /\ Cardinality({p \in (1..Len(k)) \X (1..Len(k)) :
                 p[1] < p[2] /\ src[p[1]] > src[p[2]] /\ Odd(k[p[1]]) /\ Odd(k[p[2]])}) % 2 = 1
\* parity of reversing the order of a group of edges
FullReverseOdd(k) ==
  IsFermi /\ LET n == Cardinality({i \in 1..Len(k) : Odd(k[i])}) IN ((n * (n - 1)) \div 2) % 2 = 1
XorSet(S) == Cardinality(S) % 2 = 1

------------------------------------------------------------------------------
(* The elementary edge operations, without pruning *)
Fill(names, es, first, step) ==   \* values in storage order: first, first+step, ...
  LET ks == ZeroCombos(es)
      sz == TLCEval([i \in 1..Len(ks) |-> Prod(Dims(es, ks[i]))])
      off(i) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(sz, 1, i - 1))
      idx(k) == CHOOSE i \in 1..Len(ks) : ks[i] = k
  IN [ names |-> names, edges |-> es,
       blk |-> TLCEval([k \in ToSet(ks) |->
                  LET o == off(idx(k)) n == sz[idx(k)]
                  IN TLCEval([p \in 1..n |->
                       IF Cplx THEN <<first[1] + (o + p - 1) * step[1], first[2] + (o + p - 1) * step[2]>>
                       ELSE first + (o + p - 1) * step])]) ]

RenameRaw(T, F(_)) == [T EXCEPT !.names = TLCEval([i \in 1..Len(T.names) |-> F(T.names[i])])]

CutEdge(e, spec) ==   \* spec: sequence of <<symmetry, new dimension>>; a limit of 0 removes the segment
  LET m(s) == SelectSeq(spec, LAMBDA c : c[1] = s)
      lim(s, d) == IF m(s) = <<>> THEN d ELSE IF m(s)[1][2] < d THEN m(s)[1][2] ELSE d
      kept == SelectSeq(e[2], LAMBDA g : m(g[1]) = <<>> \/ m(g[1])[1][2] # 0)
  IN << e[1], [j \in 1..Len(kept) |-> <<kept[j][1], lim(kept[j][1], kept[j][2])>>] >>
CutRaw(T, cuts) ==    \* cuts: sequence of <<name, spec>>
  LET es == TLCEval([i \in 1..Len(T.edges) |->
               LET m == SelectSeq(cuts, LAMBDA c : c[1] = T.names[i])
               IN IF m = <<>> THEN T.edges[i] ELSE CutEdge(T.edges[i], m[1][2])])
  IN Make(T.names, es, LAMBDA k, x : At(T, k, x))

TransposeRaw(T, nn) ==
  LET n   == Len(nn)
      src == TLCEval([i \in 1..n |-> IndexOfName(T, nn[i])])
      inv == TLCEval([j \in 1..n |-> CHOOSE i \in 1..n : src[i] = j])
      es  == TLCEval([i \in 1..n |-> T.edges[src[i]]])
  IN Make(nn, es, LAMBDA k, x :
        Sgn(SwapOdd(k, src), At(T, [j \in 1..n |-> k[inv[j]]], [j \in 1..n |-> x[inv[j]]])))

\* reverse the arrow of the edges in rev; those in valid produce a sign
ReverseRaw(T, rev, valid) ==
  LET es == TLCEval([i \in 1..Len(T.edges) |->
               IF IsFermi /\ T.names[i] \in rev THEN <<1 - T.edges[i][1], T.edges[i][2]>> ELSE T.edges[i]])
      odd(k) == XorSet({i \in 1..Len(k) : T.names[i] \in (rev \cap valid) /\ Odd(k[i])})
  IN [T EXCEPT !.edges = es,
               !.blk = TLCEval([k \in DOMAIN T.blk |->
                          IF odd(k) THEN TLCEval([p \in 1..Len(T.blk[k]) |-> VNeg(T.blk[k][p])]) ELSE T.blk[k]])]

\* basis states of a group of edges, by total symmetry, in storage order
Entries(es) ==
  LET cs == Combos(es)
      ts == {SymSum(cs[i]) : i \in 1..Len(cs)}
  IN TLCEval([t \in ts |->
        LET ct == SelectSeq(cs, LAMBDA c : SymSum(c) = t)
        IN FlattenSeq([i \in 1..Len(ct) |->
              LET d == Dims(es, ct[i]) s == Strides(d)
              IN TLCEval([p \in 1..Prod(d) |-> <<ct[i], UnravelS(d, s, p - 1)>>])])])

\* group g is << new name, number of edges >>; groups partition the edges in order
GroupStart(groups, g) == FoldLeft(LAMBDA a, b : a + b[2], 0, SubSeq(groups, 1, g - 1))
GroupEdges(T, groups, g) == SubSeq(T.edges, GroupStart(groups, g) + 1, GroupStart(groups, g) + groups[g][2])
GroupArrow(es) ==
  IF es = <<>> THEN 0
  ELSE LET v == SelectSeq(es, ArrowValid) IN IF v = <<>> THEN es[1][1] ELSE v[1][1]

\* the edges of a group that must be reversed before they can be merged
AutoReverse(T, groups) ==
  UNION {LET st == GroupStart(groups, g) es == GroupEdges(T, groups, g) a == GroupArrow(es)
         IN {T.names[st + i] : i \in {j \in 1..Len(es) : ArrowValid(es[j]) /\ es[j][1] # a}}
         : g \in {h \in 1..Len(groups) : groups[h][2] # 1}}

MergeRaw(T, groups, valid) ==
  LET n   == Len(groups)
      ent == TLCEval([g \in 1..n |-> Entries(GroupEdges(T, groups, g))])
      es  == TLCEval([g \in 1..n |->
               LET ge == GroupEdges(T, groups, g)
               IN << GroupArrow(ge),
                     LET ts == SetToSortSeq(DOMAIN ent[g], SymLess)
                     IN TLCEval([i \in 1..Len(ts) |-> <<ts[i], Len(ent[g][ts[i]])>>]) >>])
      nn  == TLCEval([g \in 1..n |-> groups[g][1]])
  IN Make(nn, es, LAMBDA k, x :
        LET st == TLCEval([g \in 1..n |-> ent[g][k[g]][x[g] + 1]])
            ck == FlattenSeq([g \in 1..n |-> st[g][1]])
            cx == FlattenSeq([g \in 1..n |-> st[g][2]])
        IN Sgn(XorSet({g \in 1..n : nn[g] \in valid /\ FullReverseOdd(st[g][1])}), At(T, ck, cx)))

\* plan[i]: <<>> if edge i is kept, else << << <<name, segments>>, ... >> >>
SplitRaw(T, plan, valid) ==
  LET n   == Len(T.edges)
      pc(i) == IF plan[i] = <<>> THEN << <<T.names[i], T.edges[i][2]>> >> ELSE plan[i][1]
      es(i) == TLCEval([j \in 1..Len(pc(i)) |-> <<T.edges[i][1], pc(i)[j][2]>>])
      all == FlattenSeq([i \in 1..n |-> es(i)])
      nn  == FlattenSeq([i \in 1..n |-> [j \in 1..Len(pc(i)) |-> pc(i)[j][1]]])
      cnt == TLCEval([i \in 1..n |-> Len(pc(i))])
      st  == TLCEval([i \in 1..n |-> FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(cnt, 1, i - 1))])
      ent == TLCEval([i \in 1..n |-> IF plan[i] = <<>> THEN <<>> ELSE Entries(es(i))])
  IN Make(nn, all, LAMBDA k, x :
        LET gk(i) == SubSeq(k, st[i] + 1, st[i] + cnt[i])
            gx(i) == SubSeq(x, st[i] + 1, st[i] + cnt[i])
            t  == TLCEval([i \in 1..n |-> SymSum(gk(i))])
            p  == TLCEval([i \in 1..n |-> IF plan[i] = <<>> THEN gx(i)[1]
                     ELSE (CHOOSE q \in 1..Len(ent[i][t[i]]) : ent[i][t[i]][q] = <<gk(i), gx(i)>>) - 1])
        IN IF t \notin DOMAIN T.blk THEN VZero
           ELSE Sgn(XorSet({i \in 1..n : T.names[i] \in valid /\ FullReverseOdd(gk(i))}), At(T, t, p)))

------------------------------------------------------------------------------
(* The public edge operation: cut, rename, split, reverse, transpose,
   reverse before merge, merge.                                             *)
Lookup(map, n, default) ==   \* map: sequence of <<key, value>>
  LET m == SelectSeq(map, LAMBDA c : c[1] = n) IN IF m = <<>> THEN default ELSE m[1][2]
InMap(map, n) == \E i \in 1..Len(map) : map[i][1] = n

EdgeOpNames(T, ren, split) ==    \* names after rename and split
  LET n1 == [i \in 1..Len(T.names) |-> Lookup(ren, T.names[i], T.names[i])]
  IN FlattenSeq([i \in 1..Len(n1) |->
        IF InMap(split, n1[i]) THEN [j \in 1..Len(Lookup(split, n1[i], <<>>)) |-> Lookup(split, n1[i], <<>>)[j][1]]
        ELSE <<n1[i]>>])
EdgeOpTarget(merge, nn) ==      \* names before the merge
  FlattenSeq([i \in 1..Len(nn) |-> IF InMap(merge, nn[i]) THEN Lookup(merge, nn[i], <<>>) ELSE <<nn[i]>>])
EdgeOpLegal(T, ren, split, merge, nn) ==
  LET a == EdgeOpNames(T, ren, split) b == EdgeOpTarget(merge, nn)
  IN Len(a) = Len(b) /\ ToSet(a) = ToSet(b) /\ Cardinality(ToSet(a)) = Len(a) /\ Cardinality(ToSet(nn)) = Len(nn)

EdgeOp(T, ren, split, rev, merge, nn, apply, excl, cut) ==
  LET T0 == IF cut = <<>> THEN T ELSE CutRaw(T, cut)
      T1 == RenameRaw(T0, LAMBDA n : Lookup(ren, n, n))
      V(j, names) == {n \in ToSet(names) : apply # (n \in ToSet(excl[j]))}
      T2 == IF split = <<>> THEN T1
            ELSE SplitRaw(T1, [i \in 1..Len(T1.names) |->
                    IF InMap(split, T1.names[i]) THEN <<Lookup(split, T1.names[i], <<>>)>> ELSE <<>>], V(1, T1.names))
      T3 == IF rev = <<>> THEN T2 ELSE ReverseRaw(T2, ToSet(rev), V(2, T2.names))
      mid == EdgeOpTarget(merge, nn)
      T4 == IF mid = T3.names THEN T3 ELSE TransposeRaw(T3, mid)
      groups == [i \in 1..Len(nn) |-> IF InMap(merge, nn[i]) THEN <<nn[i], Len(Lookup(merge, nn[i], <<>>))>> ELSE <<nn[i], 1>>]
      T5 == ReverseRaw(T4, AutoReverse(T4, groups), V(3, T4.names))
      T6 == IF merge = <<>> THEN T4 ELSE MergeRaw(T5, groups, V(4, nn))
  IN Prune(T6)

NoExcl == <<<<>>, <<>>, <<>>, <<>>>>
Transpose(T, nn) == EdgeOp(T, <<>>, <<>>, <<>>, <<>>, nn, FALSE, NoExcl, <<>>)

\* merge_edge: a group of edges is moved to the place of its last member
MergeTarget(T, merge) ==
  LET has(m) == SelectSeq(m[2], LAMBDA n : HasName(T, n))
      mm == [i \in 1..Len(merge) |-> <<merge[i][1], has(merge[i])>>]
      empties == SelectSeq(mm, LAMBDA m : m[2] = <<>>)
      grp(n) == {i \in 1..Len(mm) : n \in ToSet(mm[i][2])}
      body == FlattenSeq([i \in 1..Len(T.names) |->
                LET g == grp(T.names[i])
                IN IF g = {} THEN <<T.names[i]>>
                   ELSE LET m == mm[CHOOSE j \in g : TRUE]
                        IN IF m[2][Len(m[2])] = T.names[i] THEN <<m[1]>> ELSE <<>>])
  IN << mm, Reverse([i \in 1..Len(empties) |-> empties[i][1]]) \o body >>
MergeEdge(T, merge, apply, exclMerge, exclRev) ==
  LET t == MergeTarget(T, merge)
  IN EdgeOp(T, <<>>, <<>>, <<>>, t[1], t[2], apply, << <<>>, <<>>, exclRev, exclMerge >>, <<>>)
SplitEdge(T, split, apply, excl) ==
  LET sp == SelectSeq(split, LAMBDA s : HasName(T, s[1]))
  IN EdgeOp(T, <<>>, sp, <<>>, <<>>, EdgeOpNames(T, <<>>, sp), apply, << excl, <<>>, <<>>, <<>> >>, <<>>)
ReverseEdge(T, rev, apply, excl) ==
  EdgeOp(T, <<>>, <<>>, rev, <<>>, T.names, apply, << <<>>, excl, <<>>, <<>> >>, <<>>)
RenameEdge(T, ren) == RenameRaw(T, LAMBDA n : Lookup(ren, n, n))

------------------------------------------------------------------------------
(* Contraction.  Edges are contracted in pairs; for fermions the first tensor
   is brought to the order (free, c1 .. cn), the second to (cn .. c1, free),
   and neighbouring edges annihilate with a sign when the arrow of the edge of
   the first tensor points out.                                             *)
PairsOf(A, B, pairs) == SelectSeq(pairs, LAMBDA p : HasName(A, p[1]) /\ HasName(B, p[2]))
EdgesMatch(e, f) ==    \* contractible: opposite arrows, equal dimension where both have the symmetry
  /\ IsFermi => e[1] # f[1]
  /\ \A j \in 1..Len(e[2]) : HasSym(f, SymNeg(e[2][j][1])) => DimOf(f, SymNeg(e[2][j][1])) = e[2][j][2]
ContractLegal(A, B, pairs0) ==
  LET pairs == PairsOf(A, B, pairs0) n == Len(pairs)
      free1 == SelectSeq(A.names, LAMBDA x : \A i \in 1..n : pairs[i][1] # x)
      free2 == SelectSeq(B.names, LAMBDA x : \A i \in 1..n : pairs[i][2] # x)
      fuse  == IF Kind = "No" THEN {x \in ToSet(A.names) \cap ToSet(B.names) : \A i \in 1..n : pairs[i][1] # x /\ pairs[i][2] # x} ELSE {}
  IN /\ Cardinality({pairs[i][1] : i \in 1..n}) = n
     /\ Cardinality({pairs[i][2] : i \in 1..n}) = n
     /\ \A i \in 1..n : EdgesMatch(EdgeOf(A, pairs[i][1]), EdgeOf(B, pairs[i][2]))
     /\ (ToSet(free1) \cap ToSet(free2)) \subseteq fuse
     /\ \A f \in fuse : EdgeOf(A, f) = EdgeOf(B, f)

\* fuse: the names both tensors share and keep (only without symmetry); they
\* come first in the result, as a batch index
FuseNames(A, B, pairs0) ==
  LET pairs == PairsOf(A, B, pairs0) n == Len(pairs)
  IN IF Kind # "No" THEN {}
     ELSE {x \in ToSet(A.names) \cap ToSet(B.names) : \A i \in 1..n : pairs[i][1] # x /\ pairs[i][2] # x}

ContractWithFuse(A, B, pairs0, fuse) ==
  LET pairs == PairsOf(A, B, pairs0)
      n  == Len(pairs)
      f1 == SelectSeq(A.names, LAMBDA x : (\A i \in 1..n : pairs[i][1] # x) /\ x \notin ToSet(fuse))
      f2 == SelectSeq(B.names, LAMBDA x : (\A i \in 1..n : pairs[i][2] # x) /\ x \notin ToSet(fuse))
      nf == Len(fuse)  n1 == Len(f1)  n2 == Len(f2)
      nn == fuse \o f1 \o f2
      es == TLCEval([i \in 1..(nf + n1 + n2) |->
              IF i <= nf + n1 THEN EdgeOf(A, nn[i]) ELSE EdgeOf(B, nn[i])])
      \* orders the tensors are brought to, as old positions
      srcA == TLCEval([i \in 1..(nf + n1 + n) |->
                IF i <= nf + n1 THEN IndexOfName(A, nn[i]) ELSE IndexOfName(A, pairs[i - nf - n1][1])])
      srcB == TLCEval([i \in 1..(nf + n + n2) |->
                IF i <= nf THEN IndexOfName(B, nn[i])
                ELSE IF i <= nf + n THEN IndexOfName(B, pairs[n + 1 - (i - nf)][2])
                ELSE IndexOfName(B, nn[i - n + n1])])
      invA == TLCEval([j \in 1..Len(srcA) |-> CHOOSE i \in 1..Len(srcA) : srcA[i] = j])
      invB == TLCEval([j \in 1..Len(srcB) |-> CHOOSE i \in 1..Len(srcB) : srcB[i] = j])
      \* the symmetries both sides of a contracted pair have
      ce == TLCEval([i \in 1..n |->
              LET e == EdgeOf(A, pairs[i][1]) f == EdgeOf(B, pairs[i][2])
              IN << e[1], SelectSeq(e[2], LAMBDA g : HasSym(f, SymNeg(g[1]))) >>])
      cc == Combos(ce)
      ccd == TLCEval([i \in 1..Len(cc) |-> Dims(ce, cc[i])])
      out(c) == XorSet({i \in 1..n : ce[i][1] = 0 /\ Odd(c[i])})
      term(k, x, c, y) ==
        LET ka == SubSeq(k, 1, nf + n1) \o c
            xa == SubSeq(x, 1, nf + n1) \o y
            kb == SubSeq(k, 1, nf) \o Reverse([i \in 1..n |-> SymNeg(c[i])]) \o SubSeq(k, nf + n1 + 1, Len(k))
            xb == SubSeq(x, 1, nf) \o Reverse(y) \o SubSeq(x, nf + n1 + 1, Len(x))
        IN VMul(At(A, [j \in 1..Len(ka) |-> ka[invA[j]]], [j \in 1..Len(ka) |-> xa[invA[j]]]),
                At(B, [j \in 1..Len(kb) |-> kb[invB[j]]], [j \in 1..Len(kb) |-> xb[invB[j]]]))
      neg(k, c) ==
        LET ka == SubSeq(k, 1, nf + n1) \o c
            kb == SubSeq(k, 1, nf) \o Reverse([i \in 1..n |-> SymNeg(c[i])]) \o SubSeq(k, nf + n1 + 1, Len(k))
        IN IsFermi /\ ((SwapOdd(ka, srcA) # SwapOdd(kb, srcB)) # out(c))
      el(k, x) ==
        LET s1 == SymSum(SubSeq(k, 1, nf + n1))
        IN VSum(FlattenSeq([i \in 1..Len(cc) |->
             IF SymAdd(s1, SymSum(cc[i])) # SymZero THEN <<>>
             ELSE LET d == ccd[i] st == Strides(d) ng == neg(k, cc[i])
                  IN TLCEval([p \in 1..Prod(d) |-> Sgn(ng, term(k, x, cc[i], UnravelS(d, st, p - 1)))])]))
  IN Prune(Make(nn, es, LAMBDA k, x : el(k, x)))

Contract(A, B, pairs) == ContractWithFuse(A, B, pairs, <<>>)

(* KNOWN DEVIATION of the code (known_findings.json, F01): several edges with
   a symmetry that is not its own inverse are merged on both sides in the
   order of their own symmetries, so the basis states of the two merged edges
   do not line up.  This is the product of the two merged matrices as the code
   forms it; `order` is the order of the pairs used for merging.            *)
MisalignedProduct(A, B, order) ==
  LET n  == Len(order)
      f1 == SelectSeq(A.names, LAMBDA x : \A i \in 1..n : order[i][1] # x)
      f2 == SelectSeq(B.names, LAMBDA x : \A i \in 1..n : order[i][2] # x)
      c1 == [i \in 1..n |-> order[i][1]]
      c2 == [i \in 1..n |-> order[i][2]]
      cut1 == TLCEval([i \in 1..n |-> <<c1[i],
                 LET e == EdgeOf(A, c1[i]) f == EdgeOf(B, c2[i])
                     d == SelectSeq(e[2], LAMBDA g : ~HasSym(f, SymNeg(g[1])))
                 IN [j \in 1..Len(d) |-> <<d[j][1], 0>>]>>])
      cut2 == TLCEval([i \in 1..n |-> <<c2[i],
                 LET e == EdgeOf(B, c2[i]) f == EdgeOf(A, c1[i])
                     d == SelectSeq(e[2], LAMBDA g : ~HasSym(f, SymNeg(g[1])))
                 IN [j \in 1..Len(d) |-> <<d[j][1], 0>>]>>])
      rev1 == SelectSeq(A.names, LAMBDA x : IF x \in ToSet(c1) THEN EdgeOf(A, x)[1] = 0 ELSE EdgeOf(A, x)[1] = 1)
      rev2 == SelectSeq(B.names, LAMBDA x : EdgeOf(B, x)[1] = 1)
      M1 == EdgeOp(A, <<>>, <<>>, rev1, << <<"#f1", f1>>, <<"#c1", c1>> >>, <<"#f1", "#c1">>, FALSE,
                   << <<>>, c1, <<>>, <<"#c1">> >>, cut1)
      M2 == EdgeOp(B, <<>>, <<>>, rev2, << <<"#c2", c2>>, <<"#f2", f2>> >>, <<"#c2", "#f2">>, FALSE, NoExcl, cut2)
      P  == Prune(Make(<<"#f1", "#f2">>, <<M1.edges[1], M2.edges[2]>>, LAMBDA k, x :
              LET d == DimOf(M1.edges[2], k[2])
              IN VSum([q \in 1..d |-> VMul(At(M1, k, <<x[1], q - 1>>), At(M2, k, <<q - 1, x[2]>>))])))
      sp1 == [i \in 1..Len(f1) |-> <<f1[i], EdgeOf(A, f1[i])[2]>>]
      sp2 == [i \in 1..Len(f2) |-> <<f2[i], EdgeOf(B, f2[i])[2]>>]
      back == SelectSeq(f1, LAMBDA x : EdgeOf(A, x)[1] = 1) \o SelectSeq(f2, LAMBDA x : EdgeOf(B, x)[1] = 1)
  IN EdgeOp(P, <<>>, << <<"#f1", sp1>>, <<"#f2", sp2>> >>, back, <<>>, f1 \o f2, FALSE, NoExcl, <<>>)

\* the deviation can only show when some total symmetry of the contracted group
\* is reached in two ways whose order changes under negation
MisalignedOrder(A, B, pairs) ==
  LET n == Len(pairs)
      ce == [i \in 1..n |->
              LET e == EdgeOf(A, pairs[i][1]) f == EdgeOf(B, pairs[i][2])
              IN << e[1], SelectSeq(e[2], LAMBDA g : HasSym(f, SymNeg(g[1]))) >>]
      cc == Combos(ce)
      less(a, b) == \E i \in 1..n : SymLess(a[i], b[i]) /\ \A j \in 1..(i - 1) : a[j] = b[j]
      ng(a) == [i \in 1..n |-> SymNeg(a[i])]
  IN n >= 2 /\ \E a, b \in ToSet(cc) : SymSum(a) = SymSum(b) /\ less(a, b) /\ ~less(ng(a), ng(b))
\* the code merges the pairs in the order of the one or the other operand
PairsByA(A, B, pairs0) == SortSeq(PairsOf(A, B, pairs0), LAMBDA p, q : IndexOfName(A, p[1]) < IndexOfName(A, q[1]))
PairsByB(A, B, pairs0) == SortSeq(PairsOf(A, B, pairs0), LAMBDA p, q : IndexOfName(B, p[2]) < IndexOfName(B, q[2]))
Misaligned(A, B, pairs0) ==
  MisalignedOrder(A, B, PairsByA(A, B, pairs0)) \/ MisalignedOrder(A, B, PairsByB(A, B, pairs0))
ContractDeviations(A, B, pairs0) ==
  {MisalignedProduct(A, B, PairsByA(A, B, pairs0)), MisalignedProduct(A, B, PairsByB(A, B, pairs0))}

AllPairs(A) == [i \in 1..Len(A.names) |-> <<A.names[i], A.names[i]>>]
ContractAll(A, B) == Contract(A, B, AllPairs(A))

------------------------------------------------------------------------------
(* Trace.  Of each pair the edge with arrow 1 is taken first; the tensor is
   brought to (a_n .. a_1, b_1 .. b_n, free).                               *)
TracePairs(T, pairs0) ==
  LET pairs == SelectSeq(pairs0, LAMBDA p : HasName(T, p[1]) /\ HasName(T, p[2]))
  IN TLCEval([i \in 1..Len(pairs) |->
       IF IsFermi /\ EdgeOf(T, pairs[i][1])[1] = 0 THEN <<pairs[i][2], pairs[i][1]>> ELSE pairs[i]])
TraceLegal(T, pairs0) ==
  \A i \in 1..Len(TracePairs(T, pairs0)) :
     LET p == TracePairs(T, pairs0)[i] IN EdgesMatch(EdgeOf(T, p[1]), EdgeOf(T, p[2]))
Trace_(T, pairs0) ==
  LET pairs == TracePairs(T, pairs0)
      n  == Len(pairs)
      tn == {pairs[i][1] : i \in 1..n} \cup {pairs[i][2] : i \in 1..n}
      nn == SelectSeq(T.names, LAMBDA x : x \notin tn)
      m  == Len(nn)
      es == TLCEval([i \in 1..m |-> EdgeOf(T, nn[i])])
      src == TLCEval([i \in 1..(2 * n + m) |->
               IF i <= n THEN IndexOfName(T, pairs[n + 1 - i][1])
               ELSE IF i <= 2 * n THEN IndexOfName(T, pairs[i - n][2])
               ELSE IndexOfName(T, nn[i - 2 * n])])
      inv == TLCEval([j \in 1..Len(src) |-> CHOOSE i \in 1..Len(src) : src[i] = j])
      ce == TLCEval([i \in 1..n |->
              LET e == EdgeOf(T, pairs[i][1]) f == EdgeOf(T, pairs[i][2])
              IN << e[1], SelectSeq(e[2], LAMBDA g : HasSym(f, SymNeg(g[1]))) >>])
      cc == Combos(ce)
      el(k, x) == VSum(FlattenSeq([i \in 1..Len(cc) |->
          LET c == cc[i]
              kk == Reverse(c) \o [j \in 1..n |-> SymNeg(c[j])] \o k
              d == Dims(ce, c) st == Strides(d)
              ng == SwapOdd(kk, src)
          IN TLCEval([p \in 1..Prod(d) |->
               LET y == UnravelS(d, st, p - 1)
                   xx == Reverse(y) \o y \o x
               IN Sgn(ng, At(T, [j \in 1..Len(kk) |-> kk[inv[j]]], [j \in 1..Len(kk) |-> xx[inv[j]]]))])]))
  IN Prune(Make(nn, es, LAMBDA k, x : el(k, x)))

Identity(T, pairs) ==
  LET n == Len(pairs)
      ia == TLCEval([i \in 1..n |-> IndexOfName(T, pairs[i][1])])
      ib == TLCEval([i \in 1..n |-> IndexOfName(T, pairs[i][2])])
  IN Make(T.names, T.edges, LAMBDA k, x :
       IF \A i \in 1..n : k[ia[i]] = SymNeg(k[ib[i]]) /\ x[ia[i]] = x[ib[i]] THEN VOne ELSE VZero)

Conjugate(T) ==
  LET ne(e) == << IF IsFermi THEN 1 - e[1] ELSE 0,
                  SortSegs([j \in 1..Len(e[2]) |-> <<SymNeg(e[2][j][1]), e[2][j][2]>>]) >>
      nk(k) == [i \in 1..Len(k) |-> SymNeg(k[i])]
  IN Make(T.names, TLCEval([i \in 1..Len(T.edges) |-> ne(T.edges[i])]),
          LAMBDA k, x : Sgn(FullReverseOdd(k), VConj(At(T, nk(k), x))))

NormSq(T) == LET ks == SetToSeq(DOMAIN T.blk)
             IN FoldLeft(LAMBDA a, b : a + b, 0,
                  FlattenSeq([i \in 1..Len(ks) |-> [p \in 1..Len(T.blk[ks[i]]) |-> VNormSq(T.blk[ks[i]][p])]]))
NormMax(T) == LET vs == UNION {{AbsI(T.blk[k][p]) : p \in 1..Len(T.blk[k])} : k \in DOMAIN T.blk}
              IN IF vs = {} THEN 0 ELSE CHOOSE m \in vs : \A v \in vs : v <= m
NormOne(T) == LET ks == SetToSeq(DOMAIN T.blk)
              IN FoldLeft(LAMBDA a, b : a + b, 0,
                   FlattenSeq([i \in 1..Len(ks) |-> [p \in 1..Len(T.blk[ks[i]]) |-> AbsI(T.blk[ks[i]][p])]]))
CountElements(T) == LET ks == SetToSeq(DOMAIN T.blk)
                    IN FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(ks) |-> Len(T.blk[ks[i]])])

------------------------------------------------------------------------------
(* Shrink fixes edges to one basis state, expand adds edges in one basis state;
   both contract with the tensor that is one there and zero elsewhere.      *)
OneHot(names, es, x) == Make(names, es, LAMBDA k, y : IF y = x THEN VOne ELSE VZero)
\* cfg: <<name, symmetry, index>> in the order of T's edges; new: <<>> or <<name, arrow>>
Shrink(T, cfg, new) ==
  LET tot == SymSum([i \in 1..Len(cfg) |-> cfg[i][2]])
      es  == [i \in 1..Len(cfg) |->
                << IF IsFermi THEN 1 - EdgeOf(T, cfg[i][1])[1] ELSE 0,
                   << <<SymNeg(cfg[i][2]), DimOf(EdgeOf(T, cfg[i][1]), cfg[i][2])>> >> >>]
             \o (IF new = <<>> THEN <<>> ELSE << <<new[2], << <<tot, 1>> >> >> >>)
      nn  == [i \in 1..Len(cfg) |-> cfg[i][1]] \o (IF new = <<>> THEN <<>> ELSE <<new[1]>>)
      x   == [i \in 1..Len(cfg) |-> cfg[i][3]] \o (IF new = <<>> THEN <<>> ELSE <<0>>)
  IN ContractAll(OneHot(nn, es, x), T)
ShrinkLegal(T, cfg, new) == new # <<>> \/ SymSum([i \in 1..Len(cfg) |-> cfg[i][2]]) = SymZero
\* cfg: <<name, arrow, symmetry, index, dimension>>; old: <<>> or <<name>>
Expand(T, cfg, old) ==
  LET tot == SymSum([i \in 1..Len(cfg) |-> cfg[i][3]])
      es  == [i \in 1..Len(cfg) |-> << cfg[i][2], << <<cfg[i][3], cfg[i][5]>> >> >>]
             \o (IF old = <<>> THEN <<>>
                 ELSE << << IF IsFermi THEN 1 - EdgeOf(T, old[1])[1] ELSE 0, << <<SymNeg(tot), 1>> >> >> >>)
      nn  == [i \in 1..Len(cfg) |-> cfg[i][1]] \o old
      x   == [i \in 1..Len(cfg) |-> cfg[i][4]] \o (IF old = <<>> THEN <<>> ELSE <<0>>)
  IN ContractAll(OneHot(nn, es, x), T)
ExpandLegal(T, cfg, old) ==
  LET tot == SymSum([i \in 1..Len(cfg) |-> cfg[i][3]])
  IN IF old = <<>> THEN tot = SymZero
     ELSE LET e == EdgeOf(T, old[1]) IN Len(e[2]) = 1 /\ e[2][1][2] = 1 /\ e[2][1][1] = tot

------------------------------------------------------------------------------
(* Elementwise arithmetic *)
UnionEdge(e, f) ==
  << e[1], SortSegs(e[2] \o SelectSeq(f[2], LAMBDA g : ~HasSym(e, g[1]))) >>
ElementwiseLegal(A, B) ==
  /\ Len(A.names) = Len(B.names) /\ ToSet(A.names) = ToSet(B.names)
  /\ \A i \in 1..Len(A.names) :
       LET e == A.edges[i] f == EdgeOf(B, A.names[i])
       IN \A j \in 1..Len(e[2]) : HasSym(f, e[2][j][1]) => DimOf(f, e[2][j][1]) = e[2][j][2]
\* in place, the left operand keeps its shape: both must have the same edges
InplaceLegal(A, B) ==
  /\ Len(A.names) = Len(B.names) /\ ToSet(A.names) = ToSet(B.names)
  /\ \A i \in 1..Len(A.names) : A.edges[i] = EdgeOf(B, A.names[i])
Elementwise(A, B0, op(_, _)) ==
  LET B == IF A.names = B0.names THEN B0 ELSE Transpose(B0, A.names)
      es == IF A.edges = B.edges THEN A.edges
            ELSE TLCEval([i \in 1..Len(A.edges) |-> UnionEdge(A.edges[i], B.edges[i])])
      get(T, k, x) == IF k \in DOMAIN T.blk THEN At(T, k, x) ELSE VZero
  IN Prune(Make(A.names, es, LAMBDA k, x :
       IF k \in DOMAIN A.blk \/ k \in DOMAIN B.blk THEN op(get(A, k, x), get(B, k, x)) ELSE VZero))
MapValues(T, op(_)) ==
  [T EXCEPT !.blk = TLCEval([k \in DOMAIN T.blk |-> TLCEval([p \in 1..Len(T.blk[k]) |-> op(T.blk[k][p])])])]

\* multiply (or divide) an edge by a diagonal; s: sequence of <<symmetry, values>>
Multiple(T, s, name, isV) ==
  LET i == IndexOfName(T, name)
  IN Make(T.names, T.edges, LAMBDA k, x :
       LET q == IF isV THEN SymNeg(k[i]) ELSE k[i]
       IN VMul(At(T, k, x), Lookup(s, q, <<>>)[x[i] + 1]))
===============================================================================
