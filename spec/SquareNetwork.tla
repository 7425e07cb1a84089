----------------------------- MODULE SquareNetwork -----------------------------
(* The meaning of the square lattices of include/square.

   A site is [dim |-> <<p, u, l, d, r>>, v |-> values in row-major order]: an
   absent edge has dimension 1, a site whose spin is fixed has p = 1.  A network
   is the sequence of its sites, row by row.  A configuration is a number whose
   digits in base d are the spins of the sites, first site first; a state is the
   sequence of the amplitudes of all configurations.  A term of a hamiltonian is
   [pos |-> the sites it acts on (from 1), h |-> h[in + 1][out + 1]].  All values
   are integers, so that everything here is exact.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
MaxAbs(s) == FoldLeft(LAMBDA a, b : Max2(a, Abs(b)), 0, s)
Upto == TLCEval([n \in 0..256 |-> [i \in 1..n |-> i - 1]])
SumOver(n, F(_)) == FoldLeft(LAMBDA a, k : a + F(k), 0, Upto[n])
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

------------------------------------------------------------------------------
(* Quotients in fixed point: places digits after the point, towards zero *)
RECURSIVE Digits(_, _, _, _)
Digits(q, r, d, n) == IF n = 0 THEN q ELSE Digits(q * 10 + ((r * 10) \div d), (r * 10) % d, d, n - 1)
FixAbs(n, d, places) == Digits(n \div d, n % d, d, places)
Fix(n, d, places) == IF (n < 0) = (d < 0) THEN FixAbs(Abs(n), Abs(d), places) ELSE -FixAbs(Abs(n), Abs(d), places)
Close(a, b, tol) == Abs(a - b) <= tol
\* product of two numbers with four places
Mul4(a, b) ==
  LET m == (Abs(a) \div 10000) * Abs(b) + ((Abs(a) % 10000) * (Abs(b) \div 10000)) + ((Abs(a) % 10000) * (Abs(b) % 10000)) \div 10000
  IN  IF (a < 0) = (b < 0) THEN m ELSE -m

------------------------------------------------------------------------------
(* Contraction of a network *)
Slice(t, s) ==
  LET k == Len(t.v) \div t.dim[1]
  IN  [dim |-> <<1, t.dim[2], t.dim[3], t.dim[4], t.dim[5]>>, v |-> SubSeq(t.v, s * k + 1, (s + 1) * k)]

\* one site more: acc.b runs over the open vertical edges of the N columns and
\* the open edge to the right
Absorb(acc, j, A) ==
  LET lp == Prod(SubSeq(acc.vd, 1, j - 1))
      rp == Prod(SubSeq(acc.vd, j + 1, Len(acc.vd)))
      U == acc.vd[j]  L == acc.hd
      D == A.dim[4]   R == A.dim[5]
  IN  [vd |-> [acc.vd EXCEPT ![j] = D],
       hd |-> R,
       b  |-> TLCEval([q1 \in 1..(lp * D * rp * R) |->
                LET q == q1 - 1
                    r == q % R
                    y == (q \div R) % rp
                    dd == (q \div (R * rp)) % D
                    x == q \div (R * rp * D)
                IN  SumOver(U * L, LAMBDA k :
                      acc.b[((x * U + (k \div L)) * rp + y) * L + (k % L) + 1] * A.v[((k * D) + dd) * R + r + 1])])]

RECURSIVE AbsorbFrom(_, _, _, _)
AbsorbFrom(acc, net, N, i) ==
  IF i > Len(net) THEN acc ELSE AbsorbFrom(TLCEval(Absorb(acc, ((i - 1) % N) + 1, net[i])), net, N, i + 1)
Contract(N, net) ==
  LET e == AbsorbFrom([vd |-> [j \in 1..N |-> 1], hd |-> 1, b |-> <<1>>], net, N, 1)
  IN  e.b[1]

\* the edges of neighbours agree and there are none across the border
Fits(M, N, net) ==
  /\ Len(net) = M * N
  /\ \A k \in 1..Len(net) :
       LET i == (k - 1) \div N
           j == (k - 1) % N
           m == net[k].dim
       IN  /\ (i = 0 => m[2] = 1) /\ (j = 0 => m[3] = 1)
           /\ (IF i = M - 1 THEN m[4] = 1 ELSE m[4] = net[k + N].dim[2])
           /\ (IF j = N - 1 THEN m[5] = 1 ELSE m[5] = net[k + 1].dim[3])
           /\ Len(net[k].v) = Prod(m)

Unit(dim, p) == [dim |-> dim, v |-> [i \in 1..Prod(dim) |-> IF i = p THEN 1 ELSE 0]]
\* the contraction of all other sites, as a tensor over the edges of site k
Hole(N, net, k) ==
  [p \in 1..Prod(net[k].dim) |-> Contract(N, [net EXCEPT ![k] = Unit(net[k].dim, p)])]

------------------------------------------------------------------------------
(* Configurations and states *)
Digit(d, n, c, k) == (c \div Pow(d, n - k)) % d
Spins(d, n, c) == [k \in 1..n |-> Digit(d, n, c, k)]
Config(d, spins) == FoldLeft(LAMBDA a, s : a * d + s, 0, spins)
\* the spins of the sites of a term as one number
Local(d, n, c, pos) == FoldLeft(LAMBDA a, k : a * d + Digit(d, n, c, k), 0, pos)
\* the configuration with the spins of the sites of a term replaced
Put(d, n, c, pos, s) ==
  LET b == Len(pos)
  IN  FoldLeft(LAMBDA a, i : a + (Digit(d, b, s, i + 1) - Digit(d, n, c, pos[i + 1])) * Pow(d, n - pos[i + 1]), c, Upto[b])

Amplitude(N, sites, spins) == Contract(N, [k \in 1..Len(sites) |-> Slice(sites[k], spins[k])])
State(N, d, sites) ==
  LET n == Len(sites) IN TLCEval([c \in 1..Pow(d, n) |-> Amplitude(N, sites, Spins(d, n, c - 1))])

------------------------------------------------------------------------------
(* Operators *)
ApplyAt(d, n, t, v, c) ==
  LET out == Local(d, n, c, t.pos) + 1
  IN  SumOver(Len(t.h), LAMBDA i : IF t.h[i + 1][out] = 0 THEN 0 ELSE t.h[i + 1][out] * v[Put(d, n, c, t.pos, i) + 1])
Apply(d, n, t, v) == TLCEval([c \in 1..Len(v) |-> ApplyAt(d, n, t, v, c - 1)])
ApplyAll(d, n, ts, v) == TLCEval([c \in 1..Len(v) |-> Sum([k \in 1..Len(ts) |-> ApplyAt(d, n, ts[k], v, c - 1)])])
\* <v| t |v>
Expect(d, n, t, v) == LET w == Apply(d, n, t, v) IN SumOver(Len(v), LAMBDA i : v[i + 1] * w[i + 1])
Norm2(v) == SumOver(Len(v), LAMBDA i : v[i + 1] * v[i + 1])

(* exact lattice: one step of the power iteration, without normalisation *)
Power(d, n, ts, a, v) ==
  LET w == ApplyAll(d, n, ts, v) IN TLCEval([c \in 1..Len(v) |-> a * v[c] - w[c]])

(* twice the operators of spin one half, elements by in and out; i times SpinY is
   the second of them, so that XY - YX = 2 i Z *)
SpinX == <<<<0, 1>>, <<1, 0>>>>
SpinY == <<<<0, -1>>, <<1, 0>>>>
SpinZ == <<<<1, 0>>, <<0, -1>>>>
Pair(a, b) == [i \in 1..4 |-> [j \in 1..4 |-> a[((i - 1) \div 2) + 1][((j - 1) \div 2) + 1] * b[((i - 1) % 2) + 1][((j - 1) % 2) + 1]]]
Plus(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> a[i][j] + b[i][j]]]
Negative(a) == [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> -a[i][j]]]
Times(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> SumOver(Len(a), LAMBDA k : a[i][k + 1] * b[k + 1][j])]]
ASSUME Plus(Times(SpinX, SpinY), Negative(Times(SpinY, SpinX))) = Plus(SpinZ, SpinZ)

(* simple update: exp(-delta_t h) of a term up to a factor.  It is the integer
   matrix 1 - dt h if h.h = 0 and delta_t = dt; for delta_t = ln 2 or -ln 2 it is
   2 - h or 1 + h if h.h = h, and 5 - 3 h or 5 + 3 h if h.h = 1. *)
One(h) == [i \in 1..Len(h) |-> [j \in 1..Len(h) |-> IF i = j THEN 1 ELSE 0]]
Squared(h) == TLCEval([i \in 1..Len(h) |-> [j \in 1..Len(h) |-> SumOver(Len(h), LAMBDA k : h[i][k + 1] * h[k + 1][j])]])
Nilpotent(h) == Squared(h) = [i \in 1..Len(h) |-> [j \in 1..Len(h) |-> 0]]
ExactGate(h, ln2) == IF ln2 = 0 THEN Nilpotent(h) ELSE Squared(h) \in {h, One(h)}
GateOf(h, dt, ln2) ==
  LET mix(x, y) == [i \in 1..Len(h) |-> [j \in 1..Len(h) |-> (IF i = j THEN x ELSE 0) + y * h[i][j]]]
  IN  IF ln2 = 0 THEN mix(1, -dt)
      ELSE IF Squared(h) = h THEN (IF ln2 > 0 THEN mix(2, -1) ELSE mix(1, 1))
      ELSE mix(5, -3 * ln2)
Gate(t, dt, ln2) == [t EXCEPT !.h = TLCEval(GateOf(t.h, dt, ln2))]
\* the five groups of terms: sites, horizontal bonds at even and odd columns,
\* vertical bonds at even and odd rows
Row(N, k) == (k - 1) \div N
Col(N, k) == (k - 1) % N
Group(N, pos) ==
  IF Len(pos) = 1 THEN 1
  ELSE LET a == Min2(pos[1], pos[2])
       IN  IF Row(N, pos[1]) = Row(N, pos[2]) THEN 2 + (Col(N, a) % 2) ELSE 4 + (Row(N, a) % 2)
Adjacent(N, a, b) ==
  \/ Row(N, a) = Row(N, b) /\ Abs(Col(N, a) - Col(N, b)) = 1
  \/ Col(N, a) = Col(N, b) /\ Abs(Row(N, a) - Row(N, b)) = 1
Supported(N, pos) == Len(pos) = 1 \/ (Len(pos) = 2 /\ Adjacent(N, pos[1], pos[2]))
InGroups(N, ts) == FlattenSeq([g \in 1..5 |-> SelectSeq(ts, LAMBDA t : Group(N, t.pos) = g)])
Sweep(d, n, gates, v) == FoldLeft(LAMBDA w, t : Apply(d, n, t, w), v, gates)
Trotter(d, N, n, ts, dt, ln2, steps, v) ==
  LET gs == TLCEval([k \in 1..Len(ts) |-> Gate(ts[k], dt, ln2)])
      fw == TLCEval(InGroups(N, gs))
  IN  FoldLeft(LAMBDA w, s : Sweep(d, n, Reverse(fw), Sweep(d, n, fw, w)), v, Upto[steps])

------------------------------------------------------------------------------
(* Sampling.  v is the state. *)
\* the sum over s' of h(s, s') v(s') for the local estimate in configuration c
LocalSum(d, n, t, v, c) ==
  LET s == Local(d, n, c, t.pos) + 1
  IN  SumOver(Len(t.h), LAMBDA o : IF t.h[s][o + 1] = 0 THEN 0 ELSE t.h[s][o + 1] * v[Put(d, n, c, t.pos, o) + 1])
Hops(t, s) == {o \in 0..(Len(t.h) - 1) : o # s /\ t.h[s + 1][o + 1] # 0}
\* probability, in ten-thousandths, to accept the move of c to c2 by term t
Accept(d, n, t, v, c, c2) ==
  LET a == Cardinality(Hops(t, Local(d, n, c, t.pos)))
      b == Cardinality(Hops(t, Local(d, n, c2, t.pos)))
      x == v[c2 + 1] * v[c2 + 1] * a
      y == v[c + 1] * v[c + 1] * b
  IN  IF x >= y THEN 10000 ELSE Fix(x, y, 4)
\* one attempt on a distribution in millionths, a function from configurations
Attempt(d, n, t, v, dist) ==
  LET moves == UNION {{<<c, Put(d, n, c, t.pos, o)>> : o \in Hops(t, Local(d, n, c, t.pos))} : c \in DOMAIN dist}
      rate(m) == Mul4(dist[m[1]] \div Cardinality(Hops(t, Local(d, n, m[1], t.pos))), Accept(d, n, t, v, m[1], m[2]))
      r == TLCEval([m \in {x \in moves : v[x[2] + 1] # 0} |-> rate(m)])
      dom == DOMAIN dist \cup {m[2] : m \in DOMAIN r}
      Flow(S) == FoldLeft(LAMBDA a, m : a + r[m], 0, SetToSeq(S))
  IN  TLCEval([c \in dom |->
         (IF c \in DOMAIN dist THEN dist[c] ELSE 0)
         - Flow({m \in DOMAIN r : m[1] = c}) + Flow({m \in DOMAIN r : m[2] = c})])
\* the order of the attempts: along the rows sites and horizontal bonds, then
\* along the columns vertical bonds, and all of it back
MarkovKey(N, pos) ==
  LET a == Row(N, pos[1]) b == Col(N, pos[1])
  IN IF Len(pos) = 1 THEN <<0, a, b, 0>>
     ELSE LET p == Min2(pos[1], pos[2]) rev == IF pos[1] < pos[2] THEN 1 ELSE 2
          IN IF Row(N, pos[1]) = Row(N, pos[2]) THEN <<0, Row(N, p), Col(N, p), rev>>
             ELSE <<1, Col(N, p), Row(N, p), rev>>
Lex(x, y) == \E i \in 1..4 : x[i] < y[i] /\ \A k \in 1..(i - 1) : x[k] = y[k]
MarkovOrder(N, ts) == LET s == SortSeq(ts, LAMBDA x, y : Lex(MarkovKey(N, x.pos), MarkovKey(N, y.pos))) IN s \o Reverse(s)
MarkovStep(d, N, n, ts, v, dist) == FoldLeft(LAMBDA x, t : Attempt(d, n, t, v, x), dist, MarkovOrder(N, ts))
\* configurations that the attempts of one step can reach; the order of the
\* terms does not matter for what can be judged of several terms: any order
Reach1(d, n, t, v, S) ==
  S \cup {c \in UNION {{Put(d, n, c, t.pos, o) : o \in Hops(t, Local(d, n, c, t.pos))} : c \in S} : v[c + 1] # 0}
RECURSIVE Reach(_, _, _, _, _)
Reach(d, n, ts, v, S) ==
  LET U == TLCEval(FoldLeft(LAMBDA x, t : Reach1(d, n, t, v, x), S, ts))
  IN  IF U = S THEN S ELSE Reach(d, n, ts, v, U)
(* what a walk c[1], ..., c[k] gives, in four places *)
Estimate(d, n, t, v, c) == Fix(LocalSum(d, n, t, v, c), v[c + 1], 4)
Mean(s) == Fix(Sum(s), Len(s), 0)
\* (mean of the squares - square of the mean) / (k - 1)
Variance(s) == Fix(Mean([i \in 1..Len(s) |-> Mul4(s[i], s[i])]) - Mul4(Mean(s), Mean(s)), Len(s) - 1, 0)
\* the derivative of the logarithm of the amplitude by the elements of site k
LogDerivative(N, d, sites, v, k, c) ==
  LET n == Len(sites)
      sp == Spins(d, n, c)
      m == Prod(sites[k].dim) \div sites[k].dim[1]
      h == TLCEval(Hole(N, [i \in 1..n |-> Slice(sites[i], sp[i])], k))
  IN  [p \in 1..Prod(sites[k].dim) |-> IF (p - 1) \div m = sp[k] THEN Fix(h[((p - 1) % m) + 1], v[c + 1], 4) ELSE 0]
Gradient(N, d, sites, v, ts, k, cs) ==
  LET n == Len(sites)
      es == TLCEval([i \in 1..Len(cs) |-> Sum([q \in 1..Len(ts) |-> Estimate(d, n, ts[q], v, cs[i])])])
      os == TLCEval([i \in 1..Len(cs) |-> LogDerivative(N, d, sites, v, k, cs[i])])
  IN  [p \in 1..Prod(sites[k].dim) |->
         2 * Mean([i \in 1..Len(cs) |-> Mul4(es[i], os[i][p])]) - 2 * Mul4(Mean(es), Mean([i \in 1..Len(cs) |-> os[i][p]]))]
===============================================================================
