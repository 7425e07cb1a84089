// C20: histories of SquareAuxiliariesSystem and of spin configurations
static double bound_of(const Shape& s, const std::vector<Site>& net, const std::vector<char>& set, const std::map<int, Site>& rep, int hole) {
   std::vector<Site> n;
   for (int k = 0; k < s.M * s.N; k++) {
      auto f = rep.find(k);
      Site x = f != rep.end() ? f->second : net[size_t(k)];
      if (k == hole) {
         x.v.assign(x.v.size(), 1);
      }
      if (f == rep.end() && k != hole && !set[size_t(k)]) {
         return NAN;
      }
      n.push_back(x);
   }
   return contract(s.N, n, {}, true);
}
static void raw_aux_case(Rng& g) {
   auto s = shape(g, g.chance(30) ? 12 : 9, 1, g.chance(15) ? 3 : 2);
   int n = s.M * s.N;
   square::SquareAuxiliariesSystem<double> aux(s.M, s.N, TAT::Size(g.chance(50) ? 1000 : 64));
   emit(head("net") + kv("M", s.M) + kv("N", s.N));
   std::vector<Site> net(static_cast<size_t>(n));
   std::vector<char> set(size_t(n), 0);
   int lo = g.chance(50) ? -1 : -2, hi = g.chance(50) ? 1 : 2;
   auto set_site = [&](int k) {
      net[size_t(k)] = s.site(g, k / s.N, k % s.N, false, lo, hi);
      set[size_t(k)] = 1;
      auto t = build(g, net[size_t(k)], s.edges(k / s.N, k % s.N, false));
      emit(head("set") + kv("k", k + 1) + kv("t", site_json(net[size_t(k)])));
      aux.lattice[size_t(k / s.N)][size_t(k % s.N)]->set(std::move(t));
   };
   std::vector<int> order;
   for (int k = 0; k < n; k++) {
      order.push_back(k);
   }
   g.shuffle(order);
   for (int k : order) {
      set_site(k);
   }
   int ops = g.range(4, 14);
   for (int o = 0; o < ops; o++) {
      int what = g.range(0, 99);
      if (what < 35) {
         int many = g.chance(80) ? 1 : g.range(2, n + 1);
         for (int m = 0; m < many; m++) {
            set_site(g.range(0, n - 1));
         }
      } else if (what < 42) {
         int k = g.range(0, n - 1);
         emit(head("unset") + kv("k", k + 1));
         aux.lattice[size_t(k / s.N)][size_t(k % s.N)]->unset();
         set[size_t(k)] = 0;
      } else if (what < 57) {
         double b = bound_of(s, net, set, {}, -1);
         if (b < 1e8) {
            auto e = head("amp");
            double v = g.chance(50) ? double(aux(std::vector<Pos>())) : aux(std::map<Pos, Ten>());
            emit(e + kv("v", integer(v, b)));
         }
      } else if (what < 72) {
         int k = g.range(0, n - 1);
         double b = bound_of(s, net, set, {}, k);
         if (b < 1e8) {
            char hint = " vhx"[g.range(0, 3)];
            auto e = head("hole");
            auto t = aux(Poss{{k / s.N, k % s.N}}, hint);
            Site x;
            bool ok = project(t, x, "0");
            auto vs = ok ? list(x.v, [&](double y) { return num(integer(y, b)); }) : std::string("[]");
            if (!ok) {
               x.dim[0] = 0; // edges that should not be there
            }
            auto own = s.site(g, k / s.N, k % s.N, false, 1, 1);
            auto dims = [](const Site& y) { return longs(std::vector<long>(y.dim, y.dim + 5)); };
            emit(e + kv("k", k + 1) + kv("dim", dims(x)) + kv("own", dims(own)) + kv("v", vs));
         }
      } else {
         std::map<int, Site> rep;
         std::map<Pos, Ten> real;
         Poss ps;
         if (n == 1 || g.chance(40)) {
            ps = {{g.range(0, s.M - 1), g.range(0, s.N - 1)}};
         } else {
            ps = bond(g, s.M, s.N, false);
         }
         for (auto [i, j] : ps) {
            rep[i * s.N + j] = s.site(g, i, j, false, lo, hi);
            real[{i, j}] = build(g, rep[i * s.N + j], s.edges(i, j, false));
         }
         double b = bound_of(s, net, set, rep, -1);
         if (b < 1e8) {
            char hint = " vhx"[g.range(0, 3)];
            auto e = head("rep");
            double v = aux(real, hint);
            std::string r = "[";
            for (auto& [k, t] : rep) {
               r += (r.size() > 1 ? "," : "") + ("{\"k\":" + num(k + 1)) + ",\"t\":" + site_json(t) + "}";
            }
            emit(e + kv("r", r + "]") + kv("v", integer(v, b)));
         }
      }
   }
}
// the same through a lattice with spins
static void spin_aux_case(Rng& g) {
   auto s = shape(g, 9, g.chance(70) ? 2 : 3, 2);
   int n = s.M * s.N;
   // with a small cut results are only asked for, to leave something behind
   bool small = g.chance(25);
   square::SamplingGradientLattice<double> lat(s.M, s.N, 2, small ? 1 : 1000, TAT::Size(s.d));
   std::vector<Site> sites;
   for (int k = 0; k < n; k++) {
      sites.push_back(s.site(g, k / s.N, k % s.N, true, -1, g.range(1, 2)));
      lat.lattice[size_t(k / s.N)][size_t(k % s.N)] = build(g, sites.back(), s.edges(k / s.N, k % s.N, true));
   }
   emit(head("lattice") + kv("M", s.M) + kv("N", s.N) + kv("d", s.d) + kv("sites", sites_json(sites)));
   std::vector<int> conf(size_t(n), -1);
   auto bound = [&](const std::vector<int>& c) {
      for (int x : c) {
         if (x < 0) {
            return double(NAN);
         }
      }
      return contract(s.N, sites, c, true);
   };
   int ops = g.range(8, 24);
   for (int o = 0; o < ops; o++) {
      hop(g, lat);
      int what = o == 0 ? 90 : small && g.chance(15) ? 99 : g.range(0, 99);
      if (what < 35) {
         int many = g.chance(80) ? 1 : g.range(2, n + 1);
         for (int m = 0; m < many; m++) {
            int k = g.range(0, n - 1), v = g.range(g.chance(10) ? -1 : 0, int(s.d) - 1);
            emit(head("spin") + kv("k", k + 1) + kv("s", v));
            lat.spin.set({k / s.N, k % s.N}, v);
            conf[size_t(k)] = v;
         }
      } else if (what < 55) {
         double b = bound(conf);
         if (b < 1e8) {
            auto e = head("ws");
            double v = lat.spin();
            if (!small) {
               emit(e + kv("v", integer(v, b)));
            }
         }
      } else if (what < 90) {
         std::map<Pos, int> rep;
         Poss ps;
         if (n == 1 || g.chance(40)) {
            ps = {{g.range(0, s.M - 1), g.range(0, s.N - 1)}};
         } else {
            ps = bond(g, s.M, s.N, true);
         }
         auto c = conf;
         std::string r = "[";
         for (auto [i, j] : ps) {
            int v = g.range(0, int(s.d) - 1);
            rep[{i, j}] = v;
            c[size_t(i * s.N + j)] = v;
            r += (r.size() > 1 ? "," : "") + ("{\"k\":" + num(i * s.N + j + 1)) + ",\"s\":" + num(v) + "}";
         }
         double b = bound(c);
         if (b < 1e8) {
            auto e = head("wss");
            // the caller gives the amplitude of the present configuration
            double now = contract(s.N, sites, conf[0] < 0 ? c : conf, false);
            bool changed = c != conf;
            double v = lat.spin(rep, changed ? 123456789. : now, " vhx"[g.range(0, 3)]);
            if (!small) {
               emit(e + kv("r", r + "]") + kv("v", integer(v, b)));
            }
         }
      } else if (what < 96) {
         std::vector<std::vector<int>> c;
         for (int i = 0; i < s.M; i++) {
            c.emplace_back();
            for (int j = 0; j < s.N; j++) {
               c.back().push_back(g.range(0, int(s.d) - 1));
               conf[size_t(i * s.N + j)] = c.back().back();
            }
         }
         emit(head("spins") + kv("c", list(conf, [](int x) { return num(x); })));
         if (g.chance(50)) {
            lat.initialize_spin(c);
         } else {
            lat.initialize_spin([&](int i, int j) { return c[size_t(i)][size_t(j)]; });
         }
      } else {
         // what the library does itself when the cut changes: a new configuration
         emit(head("cut"));
         small = !small && g.chance(30);
         lat.set_dimension_cut(TAT::Size(small ? 1 : g.range(600, 900)));
      }
   }
}
static void aux_case(Rng& g) {
   if (g.chance(60)) {
      raw_aux_case(g);
   } else {
      spin_aux_case(g);
   }
}
