// C23
// elements by in and out, times a factor
template<typename T>
static std::string elements_of(const T& t, int body, double factor, bool imaginary) {
   std::vector<std::vector<int>> h(size_t(1 << body), std::vector<int>(size_t(1 << body), 99));
   for (TAT::Size in = 0; in < h.size(); in++) {
      for (TAT::Size out = 0; out < h.size(); out++) {
         std::map<TAT::FastName, TAT::Size> m;
         for (int k = 0; k < body; k++) {
            m["I" + std::to_string(k)] = (in >> (body - 1 - k)) & 1;
            m["O" + std::to_string(k)] = (out >> (body - 1 - k)) & 1;
         }
         std::complex<double> x = std::complex<double>(t.const_at(m)) * factor;
         double y = imaginary ? x.imag() : x.real(), rest = imaginary ? x.real() : x.imag();
         if (t.names.size() == size_t(2 * body) && std::abs(rest) < 1e-9 && std::abs(y - std::round(y)) < 1e-9 && std::abs(y) < 90) {
            h[in][out] = int(std::lround(y));
         }
      }
   }
   return matrix_json(h);
}
template<typename T>
static void spin_case(const char* type) {
   using C = square::Common<T>;
   auto e = head("spinops");
   emit(e + kv("type", quote(type)) + kv("x", elements_of(*C::Sx(), 1, 2, false)) + kv("y", elements_of(*C::Sy(), 1, 2, true)) + kv("z", elements_of(*C::Sz(), 1, 2, false)) +
        kv("xx", elements_of(*C::SxSx(), 2, 4, false)) + kv("yy", elements_of(*C::SySy(), 2, 4, false)) + kv("zz", elements_of(*C::SzSz(), 2, 4, false)) +
        kv("ss", elements_of(*C::SS(), 2, 4, false)));
}
static void exact_case(Rng& g) {
   if (g.chance(5)) { // in any order, any number of times
      g.chance(70) ? spin_case<double>("double") : spin_case<float>("float");
      return;
   }
   long d = g.chance(75) ? 2 : 3;
   auto s = shape(g, d == 2 ? 6 : 4, d, 2);
   int n = s.M * s.N;
   auto random_poss = [&](int body) {
      std::vector<Pos> all;
      for (int k = 0; k < n; k++) {
         all.push_back({k / s.N, k % s.N});
      }
      g.shuffle(all);
      return Poss(all.begin(), all.begin() + body);
   };
   square::ExactLattice<double> lat(s.M, s.N, TAT::Size(d));
   std::vector<Term> ts;
   std::set<Poss> seen;
   int count = g.range(0, 5);
   for (int k = 0; k < count; k++) {
      auto p = random_poss(g.range(1, std::min(n, d == 2 ? 3 : 2)));
      if (seen.insert(p).second) {
         if (!ts.empty() && ts.back().pos.size() == p.size() && g.chance(40)) {
            Term t = ts.back();
            t.pos = p;
            ts.push_back(t);
         } else {
            ts.push_back(term(g, p, random_matrix(g, ipow(d, int(p.size())), 2, 40, g.chance(50)), d));
         }
      }
   }
   if (n > 1 && g.chance(30)) { // through the setters
      auto h1 = term(g, {{0, 0}}, random_matrix(g, d, 2, 60, true), d);
      auto h2 = term(g, {{0, 0}, {0, 1}}, random_matrix(g, d * d, 1, 40, true), d);
      ts.clear();
      int which = g.range(1, 7);
      if (which & 1) {
         lat.set_all_site(h1.tensor);
      }
      if (which & 2) {
         lat.set_all_horizontal_bond(h2.tensor);
      }
      if (which & 4) {
         lat.set_all_vertical_bond(h2.tensor);
      }
      for (int i = 0; i < s.M; i++) {
         for (int j = 0; j < s.N; j++) {
            if (which & 1) {
               ts.push_back({{{i, j}}, h1.h, h1.tensor});
            }
            if ((which & 2) && j + 1 < s.N) {
               ts.push_back({{{i, j}, {i, j + 1}}, h2.h, h2.tensor});
            }
            if ((which & 4) && i + 1 < s.M) {
               ts.push_back({{{i, j}, {i + 1, j}}, h2.h, h2.tensor});
            }
         }
      }
   } else {
      set_terms(lat, ts);
   }
   long size = ipow(d, n);
   std::vector<double> v;
   for (long c = 0; c < size; c++) {
      v.push_back(g.range(-3, 3));
   }
   if (max_abs(v) == 0) {
      v[0] = 1;
   }
   auto name = [&](int k) { return TAT::FastName("P-" + std::to_string(k / s.N) + "-" + std::to_string(k % s.N)); };
   auto key = [&](long c) {
      auto sp = spins_of(c, n, d);
      std::map<TAT::FastName, TAT::Size> m;
      for (int k = 0; k < n; k++) {
         m[name(k)] = TAT::Size(sp[size_t(k)]);
      }
      return m;
   };
   for (long c = 0; c < size; c++) {
      lat.vector.at(key(c)) = v[size_t(c)] / max_abs(v);
   }
   emit(head("exact") + kv("M", s.M) + kv("N", s.N) + kv("d", d) + kv("terms", terms_json(ts, s.N)) + kv("v", list(v, [](double x) { return num(long(x)); })));
   // guard: everything the specification computes fits
   auto row_sum = [&](const Term& t) {
      long m = 0;
      for (size_t o = 0; o < t.h.size(); o++) {
         long x = 0;
         for (size_t i = 0; i < t.h.size(); i++) {
            x += std::abs(t.h[i][o]);
         }
         m = std::max(m, x);
      }
      return m;
   };
   double grow = 0;
   for (auto& t : ts) {
      grow += double(row_sum(t));
   }
   double bound = max_abs(v);
   int ops = g.range(2, 6);
   for (int o = 0; o < ops; o++) {
      hop(g, lat);
      int what = g.range(0, 99);
      if (what < 40) {
         long a = g.range(0, 6);
         if (a + grow == 0) {
            continue;
         }
         int steps = g.range(1, 3);
         double b = bound;
         int can = 0;
         while (can < steps && b * (double(a) + grow) < 1.5e8) {
            b *= double(a) + grow;
            can++;
         }
         if (can == 0) {
            continue;
         }
         bound = b;
         auto e = head("power");
         double energy = lat.update(can, (g.chance(50) ? -1. : 1.) * double(a) / n);
         std::vector<long> after;
         bool finite = true;
         for (long c = 0; c < size; c++) {
            double x = lat.vector.const_at(key(c));
            after.push_back(fixed(x, 1e5));
            finite = finite && std::isfinite(x);
         }
         emit(e + kv("a", a) + kv("steps", can) + kv("v", longs(after)) + kv("energy", fixed(energy, 1e4)));
         if (!finite) {
            return; // H v = a v: nothing is left
         }
      } else if (what < 80) {
         auto p = random_poss(g.range(1, std::min(n, d == 2 ? 3 : 2)));
         Term t = term(g, p, random_matrix(g, ipow(d, int(p.size())), 2, 40, g.chance(40)), d);
         double r = double(row_sum(t));
         if (bound * bound * double(size) * std::max(1., r) < 1.5e8) {
            bool ratio = g.chance(50);
            auto e = head("observe");
            double x = g.chance(70) ? lat.observe(t.pos, *t.tensor, ratio) : lat.observe(t.pos, t.tensor->to<std::complex<double>>(), ratio);
            emit(e + kv("t", term_json(t, s.N)) + kv("ratio", ratio) + kv("v", fixed(x, 1e4)));
         }
      } else if (what < 95) {
         if (bound * bound * double(size) * std::max(1., grow) < 1.5e8) {
            auto e = head("energy");
            emit(e + kv("v", fixed(lat.observe_energy(), 1e4)));
         }
      } else if (bound * bound * double(size) < 1.5e8) {
         auto e = head("norm");
         emit(e + kv("v", fixed(lat.denominator(), 1e4)));
      }
   }
}
