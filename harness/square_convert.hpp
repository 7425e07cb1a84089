// C22: conversions between the kinds of lattice keep the state up to a factor
static std::vector<double> state_of_vector(const Ten& v, int N, int n, long d) {
   std::vector<double> r;
   for (long c = 0; c < ipow(d, n); c++) {
      auto sp = spins_of(c, n, d);
      std::map<TAT::FastName, TAT::Size> m;
      for (int k = 0; k < n; k++) {
         m["P-" + std::to_string(k / N) + "-" + std::to_string(k % N)] = TAT::Size(sp[size_t(k)]);
      }
      r.push_back(v.names.size() == m.size() ? v.const_at(m) : NAN);
   }
   return r;
}
static std::string base_text(const square::AbstractLattice<double>& x) {
   return text(x);
}
static void convert_case(Rng& g) {
   long d = g.chance(80) ? 2 : 3;
   auto s = shape(g, d == 2 ? 6 : 4, d, g.chance(70) ? 2 : 3);
   int n = s.M * s.N;
   square::SimpleUpdateLattice<double> simple(s.M, s.N, TAT::Size(g.range(1, 3)), TAT::Size(d));
   std::vector<Site> sites;
   for (int k = 0; k < n; k++) {
      sites.push_back(s.site(g, k / s.N, k % s.N, true, -2, 2));
      simple.lattice[size_t(k / s.N)][size_t(k % s.N)] = build(g, sites.back(), s.edges(k / s.N, k % s.N, true));
   }
   if (!(max_abs(state_of(s.N, d, sites)) > 0)) {
      return;
   }
   set_terms(simple, supported_terms(g, s.M, s.N, d, g.range(0, 6), true, [&](long m) { return random_matrix(g, m, 2, 50, true); }));
   bool updated = g.chance(60) && !simple.hamiltonians.empty();
   if (updated) {
      simple.update(g.range(1, 2), 0.1, TAT::Size(g.range(1, 4)));
   }
   std::vector<double> before;
   auto judge = [&](const char* how, const std::vector<double>& after, bool same) {
      bool finite = max_abs(before) > 0;
      for (double x : before) {
         finite = finite && std::isfinite(x);
      }
      if (finite) {
         emit(head("convert") + kv("how", quote(how)) + kv("same", same) + kv("N", s.N) + kv("d", d) + kv("sites", updated ? "[]" : sites_json(sites)) +
              kv("before", longs(scaled(before, 1e5))) + kv("after", longs(scaled(after, 1e5))));
      }
   };
   std::vector<Site> w;
   std::string error;
   if (!weighted_sites(simple, w, error)) {
      return;
   }
   before = state_of(s.N, d, w);
   auto base = base_text(simple);
   op_begin("convert");
   {
      square::ExactLattice<double> e(simple);
      judge("simple update to exact", state_of_vector(e.vector, s.N, n, d), base_text(e) == base);
   }
   square::SamplingGradientLattice<double> sampling(simple, TAT::Size(g.range(100, 1000)));
   judge("simple update to sampling", state_of(s.N, d, sites_of(sampling)), base_text(sampling) == base && sampling.dimension_virtual == simple.dimension_virtual);
   if (g.chance(50)) {
      sampling.initialize_spin([&](int, int) { return g.range(0, int(d) - 1); });
   }
   {
      square::ExactLattice<double> e(sampling);
      judge("sampling to exact", state_of_vector(e.vector, s.N, n, d), base_text(e) == base);
   }
   square::SimpleUpdateLattice<double> back(sampling);
   judge("sampling to simple update", weighted_sites(back, w, error) ? state_of(s.N, d, w) : std::vector<double>(before.size(), NAN),
         base_text(back) == base && back.dimension_virtual == simple.dimension_virtual);
}
static void io_case(Rng& g) {
   int what = g.range(0, 99);
   if (what < 20) {
      exact_case(g);
   } else if (what < 40) {
      simple_case(g);
   } else if (what < 60) {
      spin_aux_case(g);
   } else if (what < 70) {
      sample_case(g);
   } else if (what < 75) {
      walk_case(g);
   } else {
      convert_case(g);
   }
}
