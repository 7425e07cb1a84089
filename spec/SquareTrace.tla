------------------------------ MODULE SquareTrace ------------------------------
(* Recorded histories of the square lattices against SquareNetwork. *)
EXTENDS SquareNetwork, Json, IOUtils
CONSTANT Focal
VARIABLES l, st, verdict
vars == <<l, st, verdict>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
NotSet == [dim |-> <<0, 0, 0, 0, 0>>, v |-> <<>>]

(* the network of C20: every site is a tensor or not set *)
Replaced(net, r) == FoldLeft(LAMBDA x, e : [x EXCEPT ![e.k] = e.t], net, r)
Chosen(conf, r) == FoldLeft(LAMBDA x, e : [x EXCEPT ![e.k] = e.s], conf, r)

(* after one event the abstract state *)
After(s, ev) ==
  CASE ev.op = "net"     -> [kind |-> "net", M |-> ev.M, N |-> ev.N, net |-> [k \in 1..(ev.M * ev.N) |-> NotSet]]
    [] ev.op = "set"     -> [s EXCEPT !.net[ev.k] = ev.t]
    [] ev.op = "unset"   -> [s EXCEPT !.net[ev.k] = NotSet]
    [] ev.op = "lattice" -> [kind |-> "lattice", M |-> ev.M, N |-> ev.N, d |-> ev.d, sites |-> ev.sites, conf |-> [k \in 1..(ev.M * ev.N) |-> -1]]
    [] ev.op = "spin"    -> [s EXCEPT !.conf[ev.k] = ev.s]
    [] ev.op = "spins"   -> [s EXCEPT !.conf = ev.c]
    [] ev.op = "exact"   -> [kind |-> "exact", M |-> ev.M, N |-> ev.N, d |-> ev.d, n |-> ev.M * ev.N, terms |-> ev.terms, v |-> ev.v, unit |-> MaxAbs(ev.v)]
    [] ev.op = "power"   -> IF MaxAbs(s.v) = 0 THEN s
                            ELSE LET w == FoldLeft(LAMBDA x, k : Power(s.d, s.n, s.terms, ev.a, x), s.v, Upto[ev.steps])
                                 IN [s EXCEPT !.v = w, !.unit = MaxAbs(w)]
    [] ev.op = "simple"  -> [kind |-> "simple", M |-> ev.M, N |-> ev.N, d |-> ev.d]
    [] ev.op = "sampling" -> [kind |-> "lattice", M |-> ev.M, N |-> ev.N, d |-> ev.d, n |-> ev.M * ev.N, sites |-> ev.sites, terms |-> ev.terms,
                              conf |-> [k \in 1..(ev.M * ev.N) |-> -1], v |-> State(ev.N, ev.d, ev.sites)]
    [] ev.op = "begin"   -> [kind |-> "none"]
    [] OTHER -> s

(* C23: the vector is s.v / s.unit; after an update it is the result of the power
   iteration divided by its largest element, and the energy is that of the last step *)
PowerOk(s, t, ev) ==
  LET before == FoldLeft(LAMBDA w, k : Power(s.d, s.n, s.terms, ev.a, w), s.v, Upto[ev.steps - 1])
      m == MaxAbs(t.v)
      b == IF ev.steps = 1 THEN s.unit ELSE MaxAbs(before)
  IN  IF m = 0 THEN TRUE
      ELSE /\ \A c \in 1..Len(t.v) : Close(ev.v[c], Fix(t.v[c], m, 5), 2)
           /\ Close(ev.energy * s.n, ev.a * 10000 - Fix(m, b, 4), s.n + 4)

(* C19: the state after an update without truncation is that of the gates, up to
   a factor; states are written with five digits, largest element 1 *)
Same(v, w) == \/ \A c \in 1..Len(v) : Close(v[c], w[c], 150)
              \/ \A c \in 1..Len(v) : Close(v[c], -w[c], 150)
Near(v, w) == \/ \A c \in 1..Len(v) : Close(v[c], w[c], 3)
              \/ \A c \in 1..Len(v) : Close(v[c], -w[c], 3)
TrotterOk(s, ev) ==
  /\ ev.fits = 1
  /\ ev.virtual = ev.D /\ ev.reached <= ev.D
  /\ (ev.reached < ev.D /\ ev.exact = 1) =>
       LET w == Trotter(s.d, s.N, s.M * s.N, ev.terms, ev.dt, ev.ln2, ev.steps, ev.before)
           m == MaxAbs(w)
       IN  Same(ev.after, [c \in 1..Len(w) |-> Fix(w[c], m, 5)])

(* C21 *)
\* every configuration of a walk follows from the one before
PathOk(s, c) ==
  /\ \A i \in 1..Len(c) : c[i] \in 0..(Len(s.v) - 1) /\ s.v[c[i] + 1] # 0
  /\ \A i \in 2..Len(c) : c[i] \in Reach(s.d, s.n, s.terms, s.v, {c[i - 1]})
SampledOk(s, ms, vs, cs) ==
  \A k \in 1..Len(ms) :
    LET e == TLCEval([i \in 1..Len(cs) |-> Estimate(s.d, s.n, ms[k].t, s.v, cs[i])])
    IN  /\ Close(ms[k].v, Mean(e), 4)
        /\ Len(cs) > 1 => Close(vs[k].v, Variance(e), 120)
WalkOk(s, ev) ==
  LET cs == Tail(ev.c)
  IN  /\ PathOk(s, ev.c)
      /\ ev.last = ev.c[Len(ev.c)]
      /\ SampledOk(s, ev.mean, ev.variance, cs)
      /\ SampledOk(s, ev.energy, ev.evariance, cs)
      /\ Len(ev.gradient) > 0 =>
           \A k \in 1..s.n :
             LET w == Gradient(s.N, s.d, s.sites, s.v, s.terms, k, cs)
             IN  /\ ev.gradient[k].dim = s.sites[k].dim
                 /\ \A p \in 1..Len(w) : Close(ev.gradient[k].v[p], w[p], 250)
\* k of r runs against a probability in millionths: six standard deviations
Likely(k, r, p) ==
  LET q == Min2(Max2(p, 0), 1000000)
      q3 == q \div 1000
      e == Abs(k * 1000 - ((q * r) \div 1000)) \div 1000
      var == (q3 * (1000 - q3) * r) \div 1000000
      x == Max2(0, e - 5)
  IN  x * x <= 36 * (var + 1)
HistOk(s, ev, dist) ==
  /\ \A i \in 1..Len(ev.c) : ev.c[i] \in DOMAIN dist /\ s.v[ev.c[i] + 1] # 0
  /\ \A c \in DOMAIN dist :
       LET hit == {i \in 1..Len(ev.c) : ev.c[i] = c}
       IN  Likely(IF hit = {} THEN 0 ELSE ev.k[CHOOSE i \in hit : TRUE], ev.runs, dist[c])

Ok(s, t, ev) ==
  CASE ev.op \in {"crash", "hang", "threw"} -> FALSE
    [] ev.op = "amp"  -> ev.v = Contract(s.N, s.net)
    [] ev.op = "rep"  -> ev.v = Contract(s.N, Replaced(s.net, ev.r))
    [] ev.op = "hole" -> /\ ev.dim = ev.own
                         /\ ev.v = Hole(s.N, [s.net EXCEPT ![ev.k] = Unit(ev.own, 1)], ev.k)
    [] ev.op = "ws"   -> ev.v = Amplitude(s.N, s.sites, s.conf)
    [] ev.op = "wss"  -> ev.v = Amplitude(s.N, s.sites, Chosen(s.conf, ev.r))
    [] ev.op = "power"   -> PowerOk(s, t, ev)
    [] ev.op = "observe" -> IF ev.ratio = 1 THEN Close(ev.v, Fix(Expect(s.d, s.n, ev.t, s.v), Norm2(s.v), 4), 2)
                            ELSE Close(ev.v, Fix(Expect(s.d, s.n, ev.t, s.v), s.unit * s.unit, 4), 2)
    [] ev.op = "energy"  -> Close(ev.v, Fix(Sum([k \in 1..Len(s.terms) |-> Expect(s.d, s.n, s.terms[k], s.v)]), s.n * Norm2(s.v), 4), 2)
    [] ev.op = "trotter" -> /\ \A k \in 1..Len(ev.terms) : Supported(s.N, ev.terms[k].pos) /\ ExactGate(ev.terms[k].h, ev.ln2)
                            /\ TrotterOk(s, ev)
    [] ev.op = "ergodic" -> LET all == ev.obs \o ev.energy
                            IN \A k \in 1..Len(all) : Close(all[k].v, Fix(Expect(s.d, s.n, all[k].t, s.v), Norm2(s.v), 4), 3)
    [] ev.op = "path"    -> PathOk(s, ev.c)
    [] ev.op = "walk"    -> WalkOk(s, ev)
    [] ev.op = "moves"   -> HistOk(s, ev, MarkovStep(s.d, s.N, s.n, s.terms, s.v, (ev.start :> 1000000)))
    [] ev.op = "balance" -> LET m == Norm2(s.v)
                            IN HistOk(s, ev, [c \in {x \in 0..(Len(s.v) - 1) : s.v[x + 1] # 0} |-> Fix(s.v[c + 1] * s.v[c + 1], m, 6)])
    \* all processes are at the same place and hold the same lattice
    [] ev.op = "agree"   -> /\ \A i \in 2..Len(ev.ops) : ev.ops[i] = ev.ops[1] /\ ev.texts[i] = ev.texts[1]
                            /\ Len(ev.ops) > 0
    [] ev.op = "hop"     -> ev.a = ev.b
    [] ev.op = "convert" -> /\ ev.same = 1
                            /\ Near(ev.after, ev.before)
                            /\ Len(ev.sites) > 0 =>
                                 LET v == State(ev.N, ev.d, ev.sites) m == MaxAbs(v)
                                 IN  Near(ev.after, [c \in 1..Len(v) |-> Fix(v[c], m, 5)])
    \* twice the operators of spin one half; y is the imaginary part
    [] ev.op = "spinops" -> /\ ev.x = SpinX /\ ev.y = SpinY /\ ev.z = SpinZ
                            /\ ev.xx = Pair(SpinX, SpinX) /\ ev.zz = Pair(SpinZ, SpinZ)
                            /\ ev.yy = Negative(Pair(SpinY, SpinY))
                            /\ ev.ss = Plus(ev.xx, Plus(ev.yy, ev.zz))
    [] ev.op = "norm"    -> Close(ev.v, Fix(Norm2(s.v), s.unit * s.unit, 4), 2)
    [] OTHER -> TRUE

Init == l = 2 /\ st = [kind |-> "none"] /\ verdict = "ok"
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l]
         t == After(st, ev)
         judged == ev.op \in Focal \cup {"crash", "hang", "threw"}
     IN /\ st' = t
        /\ IF judged /\ ~Ok(st, t, ev) THEN verdict' = "bad" /\ PrintT(<<"BAD", l, ev.op>>)
           ELSE verdict' = "ok" /\ TLCSet(IF judged THEN 11 ELSE 13, TLCGet(IF judged THEN 11 ELSE 13) + 1)
Spec == Init /\ [][Next]_vars
Conforms == verdict # "bad"
(* neighbours in a network or lattice agree on the edge between them *)
Consistent ==
  CASE st.kind = "net" -> (\A k \in 1..Len(st.net) : st.net[k] # NotSet) => Fits(st.M, st.N, st.net)
    [] st.kind = "lattice" -> Fits(st.M, st.N, st.sites)
    [] OTHER -> TRUE
ASSUME TLCSet(11, 0) /\ TLCSet(12, 0) /\ TLCSet(13, 0)
Accepted == /\ PrintT(<<"COUNTS", TLCGet(11), TLCGet(12), TLCGet(13), TLCGet("stats").diameter>>)
            /\ TLCGet("stats").diameter = Len(Trace)
===============================================================================
