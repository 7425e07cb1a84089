// C19
// the sites of a simple update lattice with the environments multiplied in;
// false when an edge does not agree with its neighbour or environment
static bool weighted_sites(const square::SimpleUpdateLattice<double>& x, std::vector<Site>& sites, std::string& shape_error) {
   sites = sites_of(x);
   auto fail = [&](const std::string& s) {
      shape_error = s;
      return false;
   };
   if (int(x.lattice.size()) != x.M) {
      return fail("rows");
   }
   for (int i = 0; i < x.M; i++) {
      if (int(x.lattice[size_t(i)].size()) != x.N) {
         return fail("columns");
      }
      for (int j = 0; j < x.N; j++) {
         auto& s = sites[size_t(i * x.N + j)];
         if (s.dim[0] != long(x.dimension_physics)) {
            return fail("physics");
         }
         int names = 1 + (i > 0) + (j > 0) + (i < x.M - 1) + (j < x.N - 1);
         if (int(x.lattice[size_t(i)][size_t(j)].names.size()) != names) {
            return fail("names");
         }
         if ((i == 0 && s.dim[1] != 1) || (j == 0 && s.dim[2] != 1) || (i == x.M - 1 && s.dim[3] != 1) || (j == x.N - 1 && s.dim[4] != 1)) {
            return fail("border");
         }
         if (i + 1 < x.M && s.dim[3] != sites[size_t((i + 1) * x.N + j)].dim[1]) {
            return fail("down");
         }
         if (j + 1 < x.N && s.dim[4] != sites[size_t(i * x.N + j + 1)].dim[2]) {
            return fail("right");
         }
      }
   }
   for (const auto& [key, s] : x.environment) {
      auto [c, i, j] = key;
      if ((c != 'R' && c != 'D') || i < 0 || j < 0 || i >= x.M - (c == 'D') || j >= x.N - (c == 'R')) {
         return fail("environment position");
      }
      int e = c == 'R' ? 4 : 3;
      auto& t = sites[size_t(i * x.N + j)];
      const auto& v = s.value.begin()->second;
      if (long(v.size()) != t.dim[e]) {
         return fail("environment dimension");
      }
      for (long q = 0; q < t.size(); q++) {
         long k = e == 4 ? q % t.dim[4] : (q / t.dim[4]) % t.dim[3];
         t.v[size_t(q)] *= v[size_t(k)];
      }
   }
   return true;
}
static std::vector<long> scaled(const std::vector<double>& v, double top) {
   double m = max_abs(v);
   std::vector<long> r;
   for (double x : v) {
      r.push_back(fixed(x / m, top));
   }
   return r;
}
// exp(-delta_t h) up to a factor is a + b h: with h.h = 0, or with delta_t = ln 2
// or -ln 2 and h.h = h or h.h = 1
static std::pair<int, int> gate_numbers(const std::vector<std::vector<int>>& h, int dt, int ln2) {
   if (ln2 == 0) {
      return {1, -dt};
   }
   for (size_t i = 0; i < h.size(); i++) {
      for (size_t j = 0; j < h.size(); j++) {
         int sum = 0;
         for (size_t k = 0; k < h.size(); k++) {
            sum += h[i][k] * h[k][j];
         }
         if (sum != h[i][j]) {
            return {5, -3 * ln2};
         }
      }
   }
   return ln2 > 0 ? std::pair<int, int>(2, -1) : std::pair<int, int>(1, 1);
}
static int group_of(const Term& t) {
   if (t.pos.size() == 1) {
      return 0;
   }
   auto [i, j] = std::min(t.pos[0], t.pos[1]);
   return std::get<0>(t.pos[0]) == std::get<0>(t.pos[1]) ? 1 + j % 2 : 3 + i % 2;
}
// |gates| applied to a bound, for guards only
static std::vector<double> gate(const Term& t, std::pair<int, int> ab, const std::vector<double>& v, int N, int n, long d, bool absolute) {
   std::vector<double> r(v.size(), 0.);
   int b = int(t.pos.size());
   for (long c = 0; c < long(v.size()); c++) {
      auto s = spins_of(c, n, d);
      long out = 0;
      for (auto [i, j] : t.pos) {
         out = out * d + s[size_t(i * N + j)];
      }
      for (long in = 0; in < ipow(d, b); in++) {
         double h = (in == out ? ab.first : 0.) + ab.second * t.h[size_t(in)][size_t(out)];
         auto si = spins_of(in, b, d);
         auto q = s;
         for (int k = 0; k < b; k++) {
            q[size_t(std::get<0>(t.pos[size_t(k)]) * N + std::get<1>(t.pos[size_t(k)]))] = si[size_t(k)];
         }
         long cc = 0;
         for (int x : q) {
            cc = cc * d + x;
         }
         r[size_t(c)] += (absolute ? std::abs(h) : h) * v[size_t(cc)];
      }
   }
   return r;
}
static bool conditioned(const square::SimpleUpdateLattice<double>& x) {
   for (const auto& [key, s] : x.environment) {
      double lo = 1e300, hi = 0;
      for (double v : s.value.begin()->second) {
         lo = std::min(lo, std::abs(v));
         hi = std::max(hi, std::abs(v));
      }
      if (!(lo > 1e-9 * hi)) {
         return false;
      }
   }
   return true;
}
static std::string digest(const std::string& s) {
   uint64_t h = 1469598103934665603ull;
   for (unsigned char c : s) {
      h = (h ^ c) * 1099511628211ull;
   }
   return std::to_string(h);
}
static void simple_case(Rng& g) {
   long d = g.chance(80) ? 2 : 3;
   auto s = shape(g, d == 2 ? 6 : 4, d, g.chance(70) ? 2 : 3);
   int n = s.M * s.N;
   square::SimpleUpdateLattice<double> lat(s.M, s.N, TAT::Size(g.range(1, 3)), TAT::Size(d));
   bool generic = g.chance(60);
   for (int k = 0; k < n; k++) {
      auto x = s.site(g, k / s.N, k % s.N, true, -2, 2);
      if (generic) {
         for (auto& v : x.v) {
            v = double(g.range(-1000003, 1000003)) / 1000000;
         }
      }
      lat.lattice[size_t(k / s.N)][size_t(k % s.N)] = build(g, x, s.edges(k / s.N, k % s.N, true));
   }
   emit(head("simple") + kv("M", s.M) + kv("N", s.N) + kv("d", d));
   int ops = g.range(1, 4);
   for (int o = 0; o < ops; o++) {
      hop(g, lat);
      std::vector<Site> sites;
      std::string error;
      if (!weighted_sites(lat, sites, error)) {
         return;
      }
      auto before = state_of(s.N, d, sites);
      if (!(max_abs(before) > 0)) {
         return;
      }
      bool cut = g.chance(20);
      TAT::Size D = cut ? TAT::Size(g.range(1, 3)) : TAT::Size(g.chance(50) ? 64 : 80);
      int dt = g.chance(60) ? 1 : g.chance(50) ? -1 : 2, steps = g.chance(70) ? 1 : g.range(0, 2);
      int ln2 = g.chance(35) ? g.chance(50) ? 1 : -1 : 0;
      std::vector<Term> ts;
      bool good = false, exact = false;
      for (int attempt = 0; attempt < 20 && !good; attempt++) {
         ts = supported_terms(g, s.M, s.N, d, g.chance(50) ? 1 : g.range(1, cut ? 12 : 4), true, [&](long m) {
            auto make = [&](long k) { return ln2 ? projector_or_reflection(g, k) : nilpotent(g, k); };
            return m > d && g.chance(25) ? beside_identity(make(d), g.chance(50)) : make(m);
         }, ln2 ? 2 : 1);
         // the error of writing the state with five digits must not grow
         std::vector<double> v, err, big;
         for (double x : before) {
            v.push_back(x / max_abs(before));
            err.push_back(0.6e-5);
            big.push_back(std::abs(v.back()));
         }
         std::vector<Term> order = ts;
         std::stable_sort(order.begin(), order.end(), [&](const Term& x, const Term& y) { return group_of(x) < group_of(y); });
         for (int k = 0; k < steps; k++) {
            for (int pass = 0; pass < 2; pass++) {
               for (auto& t : order) {
                  auto ab = gate_numbers(t.h, dt, ln2);
                  v = gate(t, ab, v, s.N, n, d, false);
                  err = gate(t, ab, err, s.N, n, d, true);
                  big = gate(t, ab, big, s.N, n, d, true);
               }
               std::reverse(order.begin(), order.end());
            }
         }
         exact = max_abs(big) < 15000 && max_abs(v) > 0 && max_abs(v) < 2000 && max_abs(err) / max_abs(v) < 4e-4;
         good = cut || exact;
      }
      if (!good) {
         continue;
      }
      set_terms(lat, ts);
      bool exact_before = conditioned(lat);
      auto e = head("trotter");
      lat.update(steps, ln2 ? ln2 * std::log(2.) : double(dt), D);
      bool fits = weighted_sites(lat, sites, error);
      auto after = fits ? state_of(s.N, d, sites) : std::vector<double>();
      long longest = 0;
      for (auto& x : sites) {
         longest = std::max({longest, x.dim[3], x.dim[4]});
      }
      long reached = 0;
      for (const auto& t : ts) { // of the bonds that were updated
         if (t.pos.size() == 2 && fits && steps) {
            auto [i, j] = std::min(t.pos[0], t.pos[1]);
            bool right = i == std::get<0>(t.pos[0]) && i == std::get<0>(t.pos[1]);
            reached = std::max(reached, sites[size_t(i * s.N + j)].dim[right ? 4 : 3]);
         }
      }
      bool conditioned_now = conditioned(lat), finite = fits;
      for (double x : after) {
         finite = finite && std::isfinite(x);
      }
      if (!finite && !exact) {
         return;
      }
      emit(e + kv("steps", steps) + kv("dt", dt) + kv("ln2", ln2) + kv("exact", exact) + kv("D", long(D)) + kv("terms", terms_json(ts, s.N)) + kv("fits", fits) + kv("error", quote(error)) + kv("reached", reached) +
           kv("virtual", long(lat.dimension_virtual)) + (TAT::mpi.size > 1 ? kv("text", quote(digest(text(lat)))) : "") + kv("well", exact_before && conditioned_now) + kv("before", longs(scaled(before, 1e5))) +
           kv("after", longs(scaled(after, 1e5))));
      if (!finite || longest > 24) {
         return;
      }
   }
}
