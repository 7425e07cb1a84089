----------------------------- MODULE TensorTrace -----------------------------
(* Trace validation: decides whether a log of operations of the real tensor
   library is a behaviour of TensorAlgebra.

   A trace is a sequence of events.  Registers hold the tensors; an event reads
   some registers, performs one operation of the specification and writes one
   register.  The registers take the *observed* tensors, so that every event is
   judged on its own, and only the events whose operation is in Focal are
   judged: a check only ever speaks about its own property.                  *)
EXTENDS TensorAlgebra, Json, IOUtils

CONSTANTS Focal        \* the operations judged in this run

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,           \* next event
          reg,         \* registers
          verdict      \* about the event before l: "ok" "skip" "known" "bad"
vars == <<l, reg, verdict>>

------------------------------------------------------------------------------
(* Observed tensors *)
Ten(r) == [ names |-> r.names, edges |-> r.edges,
            blk |-> [k \in ToSet(r.keys) |-> r.vals[CHOOSE i \in 1..Len(r.keys) : r.keys[i] = k]] ]
Readable(r) == r.ok = 1 /\ r.exact = 1 /\ r.idx = 1 /\ Cardinality(ToSet(r.keys)) = Len(r.keys)
Is(r, E) == Readable(r) /\ LET t == Ten(r) IN t.names = E.names /\ t.edges = E.edges /\ t.blk = E.blk
B(b) == IF b THEN "ok" ELSE "bad"

NoTensor == [names |-> <<"?">>, edges |-> <<>>, blk |-> <<>>]
Usable(i) == i \in DOMAIN reg /\ reg[i] # NoTensor

------------------------------------------------------------------------------
(* C01 *)
PossibleReverse(e) == IF \E j \in 1..Len(e[2]) : e[2][j][1][1] < 0 THEN <<1 - e[1], e[2]>> ELSE e
Created(ev) ==
  LET es == IF ev.autorev = 1 /\ IsFermi THEN [i \in 1..Len(ev.in) |-> PossibleReverse(ev.in[i])] ELSE ev.in
      ks == ZeroCombos(es)
      sz == TLCEval([i \in 1..Len(ks) |-> Prod(Dims(es, ks[i]))])
      st == TLCEval([i \in 1..Len(ks) |-> FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(sz, 1, i - 1))])
  IN Prune([names |-> ev.names, edges |-> es,
            blk |-> [k \in ToSet(ks) |-> LET i == CHOOSE j \in 1..Len(ks) : ks[j] = k
                                         IN SubSeq(ev.given, st[i] + 1, st[i] + sz[i])]])
\* an access by name: pos is a sequence of <<name, symmetry, index>> in any order
PosKey(T, pos) == [i \in 1..Len(T.names) |-> LET j == CHOOSE j \in 1..Len(pos) : pos[j][1] = T.names[i] IN pos[j][2]]
PosIdx(T, pos) == [i \in 1..Len(T.names) |-> LET j == CHOOSE j \in 1..Len(pos) : pos[j][1] = T.names[i] IN pos[j][3]]
SetAt(T, k, x, v) == [T EXCEPT !.blk[k][Ravel(Dims(T.edges, k), x) + 1] = v]
Count(v, n) == IF Cplx THEN <<v[1] + n, v[2]>> ELSE v + n
SetBlock(T, k, v) == [T EXCEPT !.blk[k] = [p \in 1..Len(T.blk[k]) |-> Count(v, p - 1)]]

\* a transposition too big to log: the elements of the source are their positions
BigTranspose(ev) ==
  LET n  == Len(ev.dims)
      nd == TLCEval([i \in 1..n |-> ev.dims[ev.perm[i]]])
      ns == Strides(nd)
      os == Strides(ev.dims)
      old(p) == FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..n |-> ((p \div ns[i]) % nd[i]) * os[ev.perm[i]]])
  IN /\ ev.res.ok = 1
     /\ ev.res.len = Prod(ev.dims)
     /\ \A i \in 1..Len(ev.res.samples) : LET s == ev.res.samples[i] IN s[3] = 0 /\ s[2] = old(s[1])

------------------------------------------------------------------------------
(* C04: the order of the batch names is not specified *)
ContractVerdict(A, X, pairs, r) ==
  IF ~ContractLegal(A, X, pairs) THEN "skip"
  ELSE LET fs == FuseNames(A, X, pairs)
       IN IF fs = {} THEN
             IF Is(r, Contract(A, X, pairs)) THEN "ok"
             ELSE IF Misaligned(A, X, pairs) /\ \E D \in ContractDeviations(A, X, pairs) : Is(r, D) THEN "known"
             ELSE "bad"
          ELSE IF r.ok # 1 \/ Len(r.names) < Cardinality(fs) THEN "bad"
          ELSE LET fuse == SubSeq(r.names, 1, Cardinality(fs))
               IN B(ToSet(fuse) = fs /\ Is(r, ContractWithFuse(A, X, pairs, fuse)))

------------------------------------------------------------------------------
(* C09: the matrix exponential, in fixed point *)
ExpScale == 1000000
Abs1(v) == IF Cplx THEN AbsI(v[1]) + AbsI(v[2]) ELSE AbsI(v)
DivI(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
VDivI(v, b) == IF Cplx THEN <<DivI(v[1], b), DivI(v[2], b)>> ELSE DivI(v, b)
VScale(v, b) == IF Cplx THEN <<v[1] * b, v[2] * b>> ELSE v * b
ExpVerdict(T, pairs, r) ==
  IF r.ok # 1 THEN "bad"
  ELSE
  LET R == Ten(r)
      n == Len(T.names)
      h == n \div 2
      nn == R.names
      partner(x) == LET i == CHOOSE i \in 1..Len(pairs) : x \in {pairs[i][1], pairs[i][2]}
                    IN IF pairs[i][1] = x THEN pairs[i][2] ELSE pairs[i][1]
      firstIn(j, i) == nn[i] \in {pairs[q][j] : q \in 1..Len(pairs)}
      shape == /\ Len(nn) = n /\ ToSet(nn) = ToSet(T.names)
               /\ (\A i \in 1..h : firstIn(1, i)) \/ (\A i \in 1..h : firstIn(2, i))
               /\ \A i \in 1..h : nn[h + i] = partner(nn[i])
  IN IF ~shape THEN "bad"
     ELSE
     LET S == Transpose(T, nn)     \* rows: first half, columns: second half
         re == SubSeq(S.edges, 1, h)
         rows == Entries(re)       \* total symmetry -> basis states
         conj(s) == [i \in 1..h |-> SymNeg(s[i])]
         mat(t) == LET st == rows[t] IN TLCEval([a \in 1..Len(st) |-> TLCEval([b \in 1..Len(st) |->
                     LET k == st[a][1] \o conj(st[b][1])
                     IN IF k \in DOMAIN S.blk THEN At(S, k, st[a][2] \o st[b][2]) ELSE VZero])])
         mul(X, M, q) == LET d == Len(M) IN TLCEval([a \in 1..d |-> TLCEval([b \in 1..d |->
                     VDivI(VSum([c \in 1..d |-> VMul(X[a][c], M[c][b])]), q)])])
         addm(X, Y) == TLCEval([a \in 1..Len(X) |-> TLCEval([b \in 1..Len(X) |-> VAdd(X[a][b], Y[a][b])])])
         id(d) == TLCEval([a \in 1..d |-> TLCEval([b \in 1..d |-> IF a = b THEN VScale(VOne, ExpScale) ELSE VZero])])
         series[t \in DOMAIN rows] ==
            LET M == mat(t)
                step(acc, q) == LET term == mul(acc[1], M, q) IN <<term, addm(acc[2], term)>>
                d == Len(M)
            IN FoldLeft(step, <<id(d), id(d)>>, [q \in 1..30 |-> q])[2]
         ser == TLCEval([t \in DOMAIN rows |-> series[t]])
         pos(t, k, x) == CHOOSE i \in 1..Len(rows[t]) : rows[t][i] = <<k, x>>
         close(a, b) == \* a in units of 1/1000, b of 1/ExpScale
            LET f(x, y) == AbsI(x * 1000 - y) <= 3000 + AbsI(y) \div 500
            IN IF Cplx THEN f(a[1], b[1]) /\ f(a[2], b[2]) ELSE f(a, b)
     IN B(/\ r.idx = 1 /\ r.exact = 1
          /\ R.edges = S.edges
          /\ DOMAIN R.blk = DOMAIN S.blk
          /\ \A k \in DOMAIN R.blk :
               LET d == Dims(S.edges, k) st == Strides(d)
                   k1 == SubSeq(k, 1, h)
                   k2 == conj(SubSeq(k, h + 1, n))
                   t == SymSum(k1)
               IN /\ Len(R.blk[k]) = Prod(d)
                  /\ \A p \in 1..Prod(d) :
                    LET x == UnravelS(d, st, p - 1)
                    IN close(R.blk[k][p], ser[t][pos(t, k1, SubSeq(x, 1, h))][pos(t, k2, SubSeq(x, h + 1, n))]))

------------------------------------------------------------------------------
(* C07, C08: decompositions, in fixed point *)
Fix == 2000
FloatTen(r) == r.ok = 1 /\ r.idx = 1 /\ r.exact = 1 /\ Cardinality(ToSet(r.keys)) = Len(r.keys)
MaxAbs(T) == LET vs == UNION {{Abs1(T.blk[k][p]) : p \in 1..Len(T.blk[k])} : k \in DOMAIN T.blk}
             IN IF vs = {} THEN 0 ELSE CHOOSE m \in vs : \A v \in vs : v <= m
\* the columns of T along edge i are orthonormal
Isometry(T, name) ==
  LET i == IndexOfName(T, name)
      n == Len(T.names)
      e == T.edges[i]
      ent == TLCEval([q \in 1..Len(e[2]) |->
               LET ks == SetToSeq({k \in DOMAIN T.blk : k[i] = e[2][q][1]})
               IN \* for every position along the edge, the column
                  [c \in 1..e[2][q][2] |-> FlattenSeq([a \in 1..Len(ks) |->
                      LET d == Dims(T.edges, ks[a]) st == Strides(d)
                      IN SelectSeq([p \in 1..Prod(d) |-> <<((p - 1) \div st[i]) % d[i], T.blk[ks[a]][p]>>],
                                   LAMBDA y : y[1] = c - 1)])]])
      dot(u, v) == VSum([p \in 1..Len(u) |-> VMul(VConj(u[p][2]), v[p][2])])
      near(v, w, len) == LET tol == 2400 * (2 + len) IN
                IF Cplx THEN AbsI(v[1] - w) <= tol /\ AbsI(v[2]) <= tol ELSE AbsI(v - w) <= tol
  IN MaxAbs(T) <= 2 * Fix + 10 /\
     \A q \in 1..Len(e[2]) : \A c1 \in 1..e[2][q][2] : \A c2 \in 1..c1 :
        near(dot(ent[q][c1], ent[q][c2]), IF c1 = c2 THEN Fix * Fix ELSE 0, Len(ent[q][c1]))
\* P (in units of 1/Fix^2) equals T up to the rounding of `terms` products
Restores(P, T, tol) ==
  LET Q == Transpose(P, T.names)
      near(v, w) == IF Cplx THEN AbsI(v[1] - w[1] * Fix * Fix) <= tol /\ AbsI(v[2] - w[2] * Fix * Fix) <= tol
                    ELSE AbsI(v - w * Fix * Fix) <= tol
      zero(s) == [p \in 1..Len(s) |-> VZero]
  IN /\ ToSet(P.names) = ToSet(T.names)
     /\ \A i \in 1..Len(Q.edges) :     \* symmetries may be missing, nothing else
          Q.edges[i][1] = T.edges[i][1] /\ ToSet(Q.edges[i][2]) \subseteq ToSet(T.edges[i][2])
     /\ \A k \in DOMAIN T.blk :
          LET q == IF k \in DOMAIN Q.blk THEN Q.blk[k] ELSE zero(T.blk[k])
          IN Len(q) = Len(T.blk[k]) /\ \A p \in 1..Len(q) : near(q[p], T.blk[k][p])
FreeEdges(T, X, names) == \A n \in names : HasName(X, n) /\ EdgeOf(X, n)[1] = EdgeOf(T, n)[1]
                              /\ ToSet(EdgeOf(X, n)[2]) \subseteq ToSet(EdgeOf(T, n)[2])
SortedDown(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
AllS(S) == SortSeq(FlattenSeq([i \in 1..Len(S) |-> S[i][2]]), LAMBDA a, b : a > b)
RoundDiv(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
SvdVerdict(T, ev) ==
  LET r == ev.res IN
  IF r.ok # 1 \/ r.exact # 1 \/ ~FloatTen(r.U) \/ ~FloatTen(r.V) THEN "bad"
  ELSE
  LET U == Ten(r.U)  V == Ten(r.V)  S == r.S
      fu == ToSet(ev.free)
      fv == ToSet(T.names) \ fu
      sv == AllS(S)
      full == AllS(ev.full.S)
      shape == /\ WellFormed(U) /\ WellFormed(V)
               /\ ToSet(U.names) = fu \cup {"CU"} /\ ToSet(V.names) = fv \cup {"CV"}
               /\ FreeEdges(T, U, fu) /\ FreeEdges(T, V, fv)
               /\ EdgesMatch(EdgeOf(U, "CU"), EdgeOf(V, "CV"))
               /\ LET e == EdgeOf(U, "CU")[2] f == EdgeOf(V, "CV")[2]
                  IN /\ {<<e[i][1], e[i][2]>> : i \in 1..Len(e)} = {<<S[i][1], Len(S[i][2])>> : i \in 1..Len(S)}
                     /\ {<<SymNeg(f[i][1]), f[i][2]>> : i \in 1..Len(f)} = {<<S[i][1], Len(S[i][2])>> : i \in 1..Len(S)}
                     /\ Len(S) = Len(e)
      values == /\ \A i \in 1..Len(S) : SortedDown(S[i][2]) /\ \A j \in 1..Len(S[i][2]) : S[i][2][j] >= 0 /\ S[i][2][j] <= 100 * Fix
                /\ ev.cut < 0 \/ ev.full.ok = 1
                /\ IF ev.cut < 0 THEN TRUE
                   ELSE LET m == IF ev.cut < Len(full) THEN ev.cut ELSE Len(full)
                        IN /\ Len(sv) = m /\ (\A i \in 1..m : AbsI(sv[i] - full[i]) <= 2)
                           /\ \A i \in 1..Len(S) : \E j \in 1..Len(ev.full.S) :
                                 ev.full.S[j][1] = S[i][1] /\ Len(ev.full.S[j][2]) >= Len(S[i][2])
                                 /\ \A q \in 1..Len(S[i][2]) : AbsI(S[i][2][q] - ev.full.S[j][2][q]) <= 2
      US == LET c == IndexOfName(U, "CU")
            IN Make(U.names, U.edges, LAMBDA key, x :
                 LET s == Lookup(S, key[c], <<>>)[x[c] + 1] v == At(U, key, x)
                 IN IF Cplx THEN <<RoundDiv(v[1] * s, Fix), RoundDiv(v[2] * s, Fix)>> ELSE RoundDiv(v * s, Fix))
      P  == Contract(US, V, << <<"CU", "CV">> >>)
      lost == ev.cut >= 0 /\ Len(full) > Len(sv)
      smax == IF sv = <<>> THEN 0 ELSE sv[1]
      tol == (Len(sv) + 2) * (smax + 2 * Fix)
      \* the norm of what was lost is that of the discarded singular values
      unit(v) == RoundDiv(v, Fix * 20)      \* 1/100
      Q == Transpose(P, T.names)
      resid == FoldLeft(LAMBDA a, b : a + b, 0, FlattenSeq([i \in 1..Cardinality(DOMAIN T.blk) |->
                 LET key == SetToSeq(DOMAIN T.blk)[i] IN [p \in 1..Len(T.blk[key]) |->
                    LET w == T.blk[key][p]
                        g == IF key \in DOMAIN Q.blk THEN Q.blk[key][p] ELSE VZero
                        dd == IF Cplx THEN <<w[1] * 100 - unit(g[1]), w[2] * 100 - unit(g[2])>> ELSE w * 100 - unit(g)
                    IN VNormSq(dd)]]))
      discarded == FoldLeft(LAMBDA a, b : a + b, 0,
                 [i \in 1..(Len(full) - Len(sv)) |-> LET x == RoundDiv(full[Len(sv) + i], 20) IN x * x])
      nel == CountElements(T)
  IN IF ~shape \/ ~values THEN "bad"
     ELSE IF ~(Isometry(U, "CU") /\ Isometry(V, "CV")) THEN "bad"
     ELSE IF lost THEN B(AbsI(resid - discarded) <= 60 + 4 * nel + (resid + discarded) \div 12)
     ELSE B(Restores(P, T, tol))

QrVerdict(T, ev) ==
  LET r == ev.res IN
  IF r.ok # 1 \/ ~FloatTen(r.Q) \/ ~FloatTen(r.R) THEN "bad"
  ELSE
  LET Q == Ten(r.Q)  R == Ten(r.R)
      ff == ToSet(ev.free)
      fq == IF ev.side = "Q" THEN ff ELSE ToSet(T.names) \ ff
      fr == ToSet(T.names) \ fq
      eq == SelectSeq(T.names, LAMBDA n : n \in fq)
      er == SelectSeq(T.names, LAMBDA n : n \in fr)
      rows == Entries([i \in 1..Len(eq) |-> EdgeOf(T, eq[i])])
      cols == Entries([i \in 1..Len(er) |-> EdgeOf(T, er[i])])
      shape == /\ WellFormed(Q) /\ WellFormed(R)
               /\ ToSet(Q.names) = fq \cup {"CQ"} /\ ToSet(R.names) = fr \cup {"CR"}
               /\ FreeEdges(T, Q, fq) /\ FreeEdges(T, R, fr)
               /\ LET e == EdgeOf(Q, "CQ") f == EdgeOf(R, "CR")
                  IN /\ EdgesMatch(e, f)
                     /\ {<<e[2][i][1], e[2][i][2]>> : i \in 1..Len(e[2])} = {<<SymNeg(f[2][i][1]), f[2][i][2]>> : i \in 1..Len(f[2])}
                     /\ \A i \in 1..Len(e[2]) :
                          LET t == SymNeg(e[2][i][1])
                          IN t \in DOMAIN rows /\ SymNeg(t) \in DOMAIN cols
                             /\ e[2][i][2] <= Len(rows[t]) /\ e[2][i][2] <= Len(cols[SymNeg(t)])
  IN IF ~shape \/ MaxAbs(R) > 200 * Fix THEN "bad"
     ELSE IF ~Isometry(Q, "CQ") THEN "bad"
     ELSE LET P == Contract(Q, R, << <<"CQ", "CR">> >>)
              nc == FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..Len(EdgeOf(Q, "CQ")[2]) |-> EdgeOf(Q, "CQ")[2][i][2]])
          IN B(Restores(P, T, (nc + 2) * (MaxAbs(R) + 2 * Fix)))

------------------------------------------------------------------------------
(* C06 *)
Pow4(T) == LET ks == SetToSeq(DOMAIN T.blk) IN FoldLeft(LAMBDA a, b : a + b, 0,
             FlattenSeq([i \in 1..Len(ks) |-> [p \in 1..Len(T.blk[ks[i]]) |-> VNormSq(T.blk[ks[i]][p]) * VNormSq(T.blk[ks[i]][p])]]))
Pow3(T) == LET ks == SetToSeq(DOMAIN T.blk) IN FoldLeft(LAMBDA a, b : a + b, 0,
             FlattenSeq([i \in 1..Len(ks) |-> [p \in 1..Len(T.blk[ks[i]]) |-> AbsI(T.blk[ks[i]][p]) * T.blk[ks[i]][p] * T.blk[ks[i]][p]]]))
MaxNormSq(T) == LET vs == UNION {{VNormSq(T.blk[k][p]) : p \in 1..Len(T.blk[k])} : k \in DOMAIN T.blk}
                IN IF vs = {} THEN 0 ELSE CHOOSE m \in vs : \A v \in vs : v <= m
NormOk(T, ev) ==
  /\ ev.exact = 1
  /\ ev.n0 = CountElements(T)
  /\ ev.n2 = NormSq(T)
  /\ IF Cplx THEN ev.nm2 = MaxNormSq(T) ELSE ev.n1 = NormOne(T) /\ ev.nm = NormMax(T)

------------------------------------------------------------------------------
(* C11: quotients are exact in the traces *)
DivExact(a, b) == IF Cplx THEN LET n == VNormSq(b) c == VMul(a, VConj(b)) IN <<DivI(c[1], n), DivI(c[2], n)>> ELSE DivI(a, b)
Op(f, a, b) == CASE f = "add" -> VAdd(a, b) [] f = "sub" -> VSub(a, b) [] f = "mul" -> VMul(a, b) [] f = "div" -> DivExact(a, b)

------------------------------------------------------------------------------
(* C24: which requests have no meaning.  Each gives "must", "mustnot" or, where
   nothing is promised, "any".                                              *)
Rejects(b) == IF b THEN "must" ELSE "mustnot"
SameSizes(e, f) == \A j \in 1..Len(e[2]) : HasSym(f, SymNeg(e[2][j][1])) => DimOf(f, SymNeg(e[2][j][1])) = e[2][j][2]
Refusal(ev) ==
  LET T == reg[ev.src]
      A == reg[ev.a]
      X == reg[ev.b]
  IN
  CASE ev.op = "rcreate"    -> Rejects(Len(ev.names) # ev.n \/ Cardinality(ToSet(ev.names)) # Len(ev.names))
    [] ev.op = "rtranspose" -> Rejects(~(Len(ev.nn) = Len(T.names) /\ ToSet(ev.nn) = ToSet(T.names)))
    [] ev.op = "rcontract"  -> Rejects(~ContractLegal(A, X, ev.pairs))
    [] ev.op = "rtrace"     -> LET p == TracePairs(T, ev.pairs)[1]
                                   e == EdgeOf(T, p[1]) f == EdgeOf(T, p[2])
                               IN IF ~SameSizes(e, f) THEN "must" ELSE IF EdgesMatch(e, f) THEN "mustnot" ELSE "any"
    [] ev.op = "rbinary"    -> Rejects(~ElementwiseLegal(A, X))
    [] ev.op = "rinplace"   -> Rejects(~InplaceLegal(A, X))
    [] ev.op = "rscalar"    -> Rejects(CountElements(T) # 1)
    [] ev.op = "rshrink"    -> Rejects(~ShrinkLegal(T, ev.cfg, ev.new))
    [] ev.op = "rqr"        -> Rejects(ev.dir \notin {"r", "R", "q", "Q"})
    [] ev.op = "rexpand"    -> Rejects(~ExpandLegal(T, ev.cfg, ev.old))
    [] ev.op = "rblock" /\ Kind = "No" /\ ev.el = 0 -> "any"   \* the only block needs no names
    [] ev.op = "rblock"     -> Rejects(~(/\ \A i \in 1..Len(T.names) : \E j \in 1..Len(ev.key) : ev.key[j][1] = T.names[i]
                                         /\ PosKey(T, ev.key) \in DOMAIN T.blk))
    [] OTHER -> "any"
RejectOps == {"rcreate", "rtranspose", "rcontract", "rtrace", "rbinary", "rinplace", "rscalar", "rshrink", "rexpand", "rblock", "rqr"}
RejectVerdict(ev) ==
  B(/\ LET f == Refusal(ev) IN f = "any" \/ (f = "must") = (ev.ok = 0)
    /\ \A i \in 1..Len(ev.after) : Usable(ev.after[i][1]) => Is(ev.after[i][2], reg[ev.after[i][1]]))

------------------------------------------------------------------------------
(* One event *)
Sources(ev) ==
  (IF "src" \in DOMAIN ev THEN {ev.src} ELSE {}) \cup (IF "a" \in DOMAIN ev THEN {ev.a} ELSE {})
  \cup (IF "b" \in DOMAIN ev THEN {ev.b} ELSE {})

Judge(ev) ==
  LET T == reg[ev.src]
      A == reg[ev.a]
      X == reg[ev.b]
      r == ev.res
  IN
  CASE ev.op = "create"  -> B(Is(r, Created(ev)))
    [] ev.op = "at"      -> B(r.ok = 1 /\ r.val = At(T, PosKey(T, ev.pos), PosIdx(T, ev.pos)))
    [] ev.op = "setat"   -> B(Is(r, SetAt(T, PosKey(T, ev.pos), PosIdx(T, ev.pos), ev.val)))
    [] ev.op = "block"   -> B(r.ok = 1 /\ r.val = T.blk[PosKey(T, ev.key)])
    [] ev.op = "setblock" -> B(Is(r, SetBlock(T, PosKey(T, ev.key), ev.val)))
    [] ev.op = "scalar"  -> IF CountElements(T) # 1 THEN "skip"
                            ELSE B(r.ok = 1 /\ r.val = T.blk[CHOOSE k \in DOMAIN T.blk : TRUE][1])
    [] ev.op = "transpose" -> B(Is(r, Transpose(T, ev.nn)))
    [] ev.op = "rename"  -> LET E == RenameEdge(T, ev.ren)
                            IN IF Cardinality(ToSet(E.names)) # Len(E.names) THEN "skip" ELSE B(Is(r, E))
    [] ev.op = "reverse" -> B(Is(r, ReverseEdge(T, ev.rev, ev.apply = 1, ev.excl)))
    [] ev.op = "edgeop"  -> IF ~EdgeOpLegal(T, ev.ren, ev.split, ev.merge, ev.nn) THEN "skip"
                            ELSE B(Is(r, EdgeOp(T, ev.ren, ev.split, ev.rev, ev.merge, ev.nn, ev.apply = 1, ev.excl, ev.cut)))
    [] ev.op = "bigtranspose" -> B(BigTranspose(ev))
    [] ev.op = "merge"   -> B(Is(r, MergeEdge(T, ev.merge, ev.apply = 1, ev.exm, ev.exr)))
    [] ev.op = "split"   -> B(Is(r, SplitEdge(T, ev.split, ev.apply = 1, ev.excl)))
    [] ev.op = "contract" -> ContractVerdict(A, X, ev.pairs, r)
    [] ev.op = "contractall" -> ContractVerdict(A, X, AllPairs(A), r)
    [] ev.op = "trace"   -> IF ~TraceLegal(T, ev.pairs) THEN "skip" ELSE B(Is(r, Trace_(T, ev.pairs)))
    [] ev.op = "conj"    -> B(Is(r, Conjugate(T)))
    [] ev.op = "norm"    -> B(NormOk(T, ev))
    [] ev.op = "norm4"   -> B(ev.exact = 1 /\ ev.n4 = Pow4(T))
    [] ev.op = "norm3"   -> B(ev.exact = 1 /\ ev.n3 = Pow3(T))
    [] ev.op = "identity" -> B(Is(r, Identity(T, ev.pairs)))
    [] ev.op = "exp"     -> ExpVerdict(T, ev.pairs, r)
    [] ev.op = "shrink"  -> IF ShrinkLegal(T, ev.cfg, ev.new) THEN B(Is(r, Shrink(T, ev.cfg, ev.new))) ELSE "skip"
    [] ev.op = "expand"  -> IF ExpandLegal(T, ev.cfg, ev.old) THEN B(Is(r, Expand(T, ev.cfg, ev.old))) ELSE "skip"
    [] ev.op \in {"binary", "inplace"} ->
         IF IF ev.op = "binary" THEN ElementwiseLegal(A, X) ELSE InplaceLegal(A, X) THEN B(Is(r, Elementwise(A, X, LAMBDA a, b : Op(ev.f, a, b)))) ELSE "skip"
    [] ev.op = "scalarop" -> B(Is(r, MapValues(A, LAMBDA v : IF ev.right = 1 THEN Op(ev.f, v, ev.c) ELSE Op(ev.f, ev.c, v))))
    [] ev.op = "to"      -> B(Is(r, IF ev.real = 1 THEN MapValues(T, VReal) ELSE T))
    [] ev.op = "mixed"   -> B(Is(r, MapValues(T, LAMBDA v : Op(ev.f, v, VReal(v)))))
    [] ev.op = "map"     -> B(Is(r, MapValues(T, LAMBDA v : VAdd(VScale(v, 3), VOne))))
    [] ev.op = "svd"     -> SvdVerdict(T, ev)
    [] ev.op = "multiple" -> B(Is(r, LET s == [i \in 1..Len(ev.S) |-> <<ev.S[i][1],
                                          [j \in 1..Len(ev.S[i][2]) |-> IF Cplx THEN <<ev.S[i][2][j], 0>> ELSE ev.S[i][2][j]]>>]
                                     IN IF ev.division = 0 THEN Multiple(T, s, ev.name, ev.isv = 1)
                                        ELSE LET i == IndexOfName(T, ev.name)
                                             IN Make(T.names, T.edges, LAMBDA k, x :
                                                  DivExact(At(T, k, x), Lookup(s, IF ev.isv = 1 THEN SymNeg(k[i]) ELSE k[i], <<>>)[x[i] + 1]))))
    [] ev.op = "qr"      -> QrVerdict(T, ev)
    [] ev.op \in RejectOps -> RejectVerdict(ev)
    [] OTHER             -> "bad"

Verdict(ev) ==
  IF ev.op \in {"crash", "hang"} THEN (IF ev.in \in Focal THEN "bad" ELSE "skip")
  ELSE IF ev.op \notin Focal THEN "skip"
  ELSE IF \E i \in Sources(ev) : ~Usable(i) THEN "skip"
  ELSE Judge(ev)

Observed(ev) ==
  IF "dst" \notin DOMAIN ev THEN reg
  ELSE LET t == IF Readable(ev.res) THEN Ten(ev.res) ELSE NoTensor
           u == IF t # NoTensor /\ WellFormed(t) THEN t ELSE NoTensor
       IN [i \in DOMAIN reg |-> IF i = ev.dst THEN u ELSE reg[i]]

Empty == [i \in 1..6 |-> NoTensor]
Init == l = 2 /\ reg = Empty /\ verdict = "ok"
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
     IN /\ verdict' = Verdict(ev)
        /\ reg' = IF ev.op \in {"begin", "end"} THEN Empty ELSE Observed(ev)
        /\ IF verdict' = "known" THEN PrintT(<<"KNOWN", l, ev.op>>) ELSE TRUE
        /\ IF verdict' = "bad" THEN PrintT(<<"BAD", l, ev.op>>) ELSE TRUE
        /\ TLCSet(IF verdict' = "ok" THEN 11 ELSE IF verdict' = "known" THEN 12 ELSE 13,
                  TLCGet(IF verdict' = "ok" THEN 11 ELSE IF verdict' = "known" THEN 12 ELSE 13) + 1)
Spec == Init /\ [][Next]_vars

Conforms == verdict # "bad"
Counters == TLCSet(11, 0) /\ TLCSet(12, 0) /\ TLCSet(13, 0)
ASSUME Counters
Accepted == /\ PrintT(<<"COUNTS", TLCGet(11), TLCGet(12), TLCGet(13), TLCGet("stats").diameter>>)
            /\ TLCGet("stats").diameter = Len(Trace)
===============================================================================
