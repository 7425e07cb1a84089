// C21
using Observers = std::map<std::string, std::map<Poss, TenP>>;
struct Sampling {
   Shape s;
   int n;
   std::vector<Site> sites;
   std::vector<double> v; // the state
   std::vector<Term> terms;
   std::unique_ptr<square::SamplingGradientLattice<double>> lat;
   void spins(long c) {
      auto x = spins_of(c, n, s.d);
      lat->initialize_spin([&](int i, int j) { return x[size_t(i * s.N + j)]; });
   }
   // the configuration the object says it has; -1 when it is none
   long conf() const {
      long c = 0;
      for (auto& r : lat->spin.configuration) {
         for (int x : r) {
            if (x < 0 || x >= s.d) {
               return -1;
            }
            c = c * s.d + x;
         }
      }
      return c;
   }
   long local(const Term& t, long c) const {
      auto x = spins_of(c, n, s.d);
      long r = 0;
      for (auto [i, j] : t.pos) {
         r = r * s.d + x[size_t(i * s.N + j)];
      }
      return r;
   }
   long put(const Term& t, long c, long o) const {
      auto x = spins_of(c, n, s.d);
      auto y = spins_of(o, int(t.pos.size()), s.d);
      for (size_t k = 0; k < y.size(); k++) {
         x[size_t(std::get<0>(t.pos[k]) * s.N + std::get<1>(t.pos[k]))] = y[k];
      }
      long r = 0;
      for (int q : x) {
         r = r * s.d + q;
      }
      return r;
   }
   // only for guards
   double estimate(const Term& t, long c) const {
      double r = 0;
      auto row = t.h[size_t(local(t, c))];
      for (size_t o = 0; o < row.size(); o++) {
         r += std::abs(row[o] * v[size_t(put(t, c, long(o)))]);
      }
      return r / std::abs(v[size_t(c)]);
   }
};
static std::vector<Term> observers(Rng& g, const Sampling& x, int count) {
   return supported_terms(g, x.s.M, x.s.N, x.s.d, count, true, [&](long m) { return random_matrix(g, m, 2, g.range(15, 70), g.chance(50)); });
}
static Observers named(Rng& g, const std::vector<Term>& ts, std::vector<std::string>& kinds) {
   Observers o;
   for (auto& t : ts) {
      kinds.push_back(g.chance(50) ? "A" : g.chance(50) ? "Sz" : "Z");
      o[kinds.back()][t.pos] = t.tensor;
   }
   return o;
}
// false: no usable state was found
static bool sampling(Rng& g, Sampling& x, int max_sites, bool product, int terms, bool sites_only = false) {
   long d = g.chance(75) ? 2 : 3;
   for (int attempt = 0; attempt < 40; attempt++) {
      x.s = shape(g, d == 2 ? max_sites : std::min(max_sites, 4), d, 2);
      if (product) {
         for (auto& q : x.s.right) {
            q = 1;
         }
         for (auto& q : x.s.down) {
            q = 1;
         }
      }
      x.n = x.s.M * x.s.N;
      x.sites.clear();
      for (int k = 0; k < x.n; k++) {
         x.sites.push_back(x.s.site(g, k / x.s.N, k % x.s.N, true, -1, g.range(1, 2)));
      }
      x.v = state_of(x.s.N, d, x.sites);
      double norm = 0;
      for (double q : x.v) {
         norm += q * q;
      }
      if (norm > 0 && norm < 1e7 && max_abs(x.v) <= 300) {
         x.terms = supported_terms(g, x.s.M, x.s.N, d, sites_only ? 0 : terms, true, [&](long m) { return random_matrix(g, m, 2, g.range(25, 80), true); });
         x.lat = std::make_unique<square::SamplingGradientLattice<double>>(x.s.M, x.s.N, 2, 1000, TAT::Size(d));
         for (int k = 0; k < x.n; k++) {
            x.lat->lattice[size_t(k / x.s.N)][size_t(k % x.s.N)] = build(g, x.sites[size_t(k)], x.s.edges(k / x.s.N, k % x.s.N, true));
         }
         return true;
      }
   }
   return false;
}
static void emit_sampling(Sampling& x) {
   set_terms(*x.lat, x.terms);
   emit(head("sampling") + kv("M", x.s.M) + kv("N", x.s.N) + kv("d", x.s.d) + kv("sites", sites_json(x.sites)) + kv("terms", terms_json(x.terms, x.s.N)));
}
static void emit_ws(Sampling& x) {
   auto e = head("ws");
   emit(e + kv("v", integer(x.lat->spin(), 1e4)));
}
static void emit_conf(Sampling& x) {
   auto sp = spins_of(x.conf(), x.n, x.s.d);
   emit(head("spins") + kv("c", list(sp, [](int q) { return num(q); })));
}
template<typename R>
static std::string measured(const std::vector<Term>& ts, const std::vector<std::string>& kinds, const R& r, int N) {
   std::string out = "[";
   for (size_t k = 0; k < ts.size(); k++) {
      auto kind = kinds.empty() ? "Energy" : kinds[k];
      double v = NAN;
      if (auto f = r.find(kind); f != r.end()) {
         if (auto q = f->second.find(ts[k].pos); q != f->second.end()) {
            v = q->second;
         }
      }
      out += (k ? "," : "") + ("{\"t\":" + term_json(ts[k], N)) + ",\"v\":" + num(fixed(v, 1e4)) + "}";
   }
   return out + "]";
}
static void sample_case(Rng& g) {
   Sampling x;
   if (!sampling(g, x, 6, g.chance(10), g.range(0, 6))) {
      return;
   }
   emit_sampling(x);
   int rounds = g.range(1, 3);
   for (int q = 0; q < rounds; q++) {
      hop(g, *x.lat);
      auto ts = observers(g, x, g.range(0, 4));
      std::vector<std::string> kinds;
      auto o = named(g, ts, kinds);
      bool energy = !x.terms.empty() && g.chance(60); // the energy without terms is not defined
      if (g.chance(50)) {
         x.spins(g.range(0, int(x.v.size()) - 1));
      }
      auto e = head("ergodic");
      auto r = x.lat->ergodic(o, energy);
      emit(e + kv("obs", measured(ts, kinds, r, x.s.N)) + kv("energy", energy ? measured(x.terms, {}, r, x.s.N) : "[]"));
      if (x.conf() >= 0) {
         emit_conf(x);
         emit_ws(x);
      }
   }
}

static long nonzero(Rng& g, const std::vector<double>& v) {
   long c;
   do {
      c = g.range(0, int(v.size()) - 1);
   } while (v[size_t(c)] == 0);
   return c;
}
// the samples of a walk, and what is computed from them
static void walk_case(Rng& g) {
   Sampling x;
   if (!sampling(g, x, 6, g.chance(10), g.range(1, 8))) {
      return;
   }
   emit_sampling(x);
   int rounds = g.range(1, 3);
   for (int q = 0; q < rounds; q++) {
      hop(g, *x.lat);
      auto ts = observers(g, x, g.range(0, 3));
      std::vector<std::string> kinds;
      auto o = named(g, ts, kinds);
      bool has_terms = !x.terms.empty(), gradient = has_terms && g.chance(60), energy = has_terms && g.chance(50);
      long c0 = nonzero(g, x.v);
      int steps = g.range(1, 6);
      auto seed = uint32_t(g.range(1, 1000000000));
      std::vector<long> walk{c0};
      op_begin("markov");
      for (int j = 1; j <= steps; j++) {
         x.spins(c0);
         square::random::engine.seed(seed);
         x.lat->markov(uint64_t(j), {});
         walk.push_back(x.conf());
      }
      bool small = true;
      for (long c : walk) {
         if (c < 0 || x.v[size_t(c)] == 0) {
            small = false;
            break;
         }
         double es = 0;
         for (auto& t : x.terms) {
            es += x.estimate(t, c);
         }
         for (auto& t : ts) {
            small = small && x.estimate(t, c) < 20;
         }
         small = small && es < 20;
         if (gradient) {
            auto sp = spins_of(c, x.n, x.s.d);
            std::vector<Site> net;
            for (int k = 0; k < x.n; k++) {
               Site s = x.sites[size_t(k)];
               long m = s.size() / s.dim[0];
               s.v.assign(x.sites[size_t(k)].v.begin() + sp[size_t(k)] * m, x.sites[size_t(k)].v.begin() + (sp[size_t(k)] + 1) * m);
               s.dim[0] = 1;
               net.push_back(s);
            }
            for (int k = 0; k < x.n && small; k++) {
               auto keep = net[size_t(k)].v;
               for (size_t p = 0; p < keep.size(); p++) {
                  net[size_t(k)].v.assign(keep.size(), 0.);
                  net[size_t(k)].v[p] = 1;
                  small = small && std::abs(contract(x.s.N, net, {}, false) / x.v[size_t(c)]) < 20;
               }
               net[size_t(k)].v = keep;
            }
         }
      }
      if (!small) { // still a walk
         emit(head("path") + kv("c", longs(walk)));
         return;
      }
      x.spins(c0);
      square::random::engine.seed(seed);
      auto e = head("walk");
      auto [mean, variance, grad] = x.lat->markov(uint64_t(steps), o, energy, gradient);
      std::string gs = "[";
      if (gradient) {
         for (int k = 0; k < x.n; k++) {
            Site s;
            bool good = k / x.s.N < int(grad.size()) && k % x.s.N < int(grad[size_t(k / x.s.N)].size()) && project(grad[size_t(k / x.s.N)][size_t(k % x.s.N)], s);
            if (!good) {
               s.dim[0] = 0;
               s.v.clear();
            }
            std::vector<long> v;
            for (double z : s.v) {
               v.push_back(fixed(z, 1e4));
            }
            gs += (k ? "," : "") + ("{\"dim\":" + longs({s.dim, s.dim + 5})) + ",\"v\":" + longs(v) + "}";
         }
      }
      bool has = energy || gradient;
      emit(e + kv("c", longs(walk)) + kv("last", x.conf()) + kv("mean", measured(ts, kinds, mean, x.s.N)) + kv("variance", measured(ts, kinds, variance, x.s.N)) +
           kv("energy", has ? measured(x.terms, {}, mean, x.s.N) : "[]") + kv("evariance", has ? measured(x.terms, {}, variance, x.s.N) : "[]") + kv("gradient", gs + "]"));
      if (x.conf() >= 0) {
         emit_conf(x);
         emit_ws(x);
      }
   }
}
static void histogram(Rng& g, Sampling& x, const char* op, const std::function<long()>& start) {
   const int runs = 1500;
   std::map<long, long> count;
   long first = 0;
   auto e = head(op);
   for (int r = 0; r < runs; r++) {
      first = start();
      x.spins(first);
      x.lat->equilibrate(1);
      count[x.conf()]++;
   }
   std::vector<long> cs, ns;
   for (auto [c, k] : count) {
      cs.push_back(c);
      ns.push_back(k);
   }
   emit(e + kv("start", first) + kv("runs", runs) + kv("c", longs(cs)) + kv("k", longs(ns)));
   (void)g;
}
static void markov_case(Rng& g) {
   int kind = g.range(0, 99);
   if (kind < 55) {
      walk_case(g);
      return;
   }
   Sampling x;
   bool one = kind < 75, disjoint = !one && kind < 85;
   if (!sampling(g, x, 4, disjoint, one ? 1 : 6)) {
      return;
   }
   if (disjoint) { // moves that do not know of each other
      std::set<Pos> used;
      std::vector<Term> ts;
      for (auto& t : x.terms) {
         bool free = true;
         for (auto& p : t.pos) {
            free = free && !used.count(p);
         }
         if (free) {
            used.insert(t.pos.begin(), t.pos.end());
            ts.push_back(t);
         }
      }
      x.terms = ts;
   }
   emit_sampling(x);
   if (one || disjoint) {
      long c = nonzero(g, x.v);
      histogram(g, x, "moves", [&]() { return c; });
   } else {
      double norm = 0;
      for (double q : x.v) {
         norm += q * q;
      }
      histogram(g, x, "balance", [&]() {
         long r = g.range(0, int(norm) - 1), c = 0;
         while (r >= std::lround(x.v[size_t(c)] * x.v[size_t(c)])) {
            r -= std::lround(x.v[size_t(c)] * x.v[size_t(c)]);
            c++;
         }
         return c;
      });
   }
   if (x.conf() >= 0) {
      emit_conf(x);
      emit_ws(x);
   }
}
