// C24: requests with and without meaning; the specification says which of them
// must be refused.  Every event carries the operands as they are afterwards.
static void fam_reject(Rng& g) {
   begin();
   int rank = g.range(1, 4);
   auto es = random_edges(g, rank, 3, 3, 60);
   auto ns = take(g, rank);
   auto a = make(g, ns, es, 4);
   input(1, a);
   // a second tensor which can mostly be contracted with the first
   int rank2 = g.range(1, 4);
   std::vector<Edge> es2;
   Names ns2;
   auto pool = name_pool("P", 8);
   for (int i = 0; i < rank2; i++) {
      if (i < rank && g.chance(75)) {
         es2.push_back(partner(es[size_t(i)]));
      } else {
         es2.push_back(random_edge(g, 2, 3));
      }
      ns2.push_back(pool[size_t(i)]);
   }
   if (g.chance(40)) {
      make_compatible(g, es2, size_t(g.range(0, rank2 - 1)));
   }
   if (g.chance(30)) { // a name the first one has too
      ns2[size_t(g.range(0, rank2 - 1))] = g.pick(ns);
   }
   auto b = make(g, ns2, es2, 4);
   input(2, b);
   // a third one of the same names as the first
   std::vector<size_t> o;
   for (size_t i = 0; i < es.size(); i++) {
      o.push_back(i);
   }
   g.shuffle(o);
   Names ns3;
   std::vector<Edge> es3;
   for (auto i : o) {
      ns3.push_back(ns[i]);
      es3.push_back(es[i]);
   }
   int spoil = g.range(0, 5);
   if (spoil == 0) {
      auto& e = g.pick(es3);
      auto m = segs_of(e);
      m.begin()->second += 1;
      e = make_edge(m, arrow_of(e));
   } else if (spoil == 1) {
      ns3[size_t(g.range(0, rank - 1))] = Name("X0");
   } else if (spoil == 2 && !is_no) {
      auto& e = g.pick(es3);
      auto m = segs_of(e);
      for (auto& [s, d] : random_segs(g, 2, 2)) {
         m.insert({s, d});
      }
      e = make_edge(m, arrow_of(e));
   } else if (spoil == 3) {
      ns3.pop_back();
      es3.pop_back();
   }
   auto c = make(g, ns3, es3, 4);
   input(3, c);

   auto log = [&](const char* op, const std::string& args, auto&& f) {
      head(op);
      int ok = 1;
      std::string extra;
      try {
         extra = f();
      } catch (const std::exception&) {
         ok = 0;
      }
      op_begin(op);
      emit(head(op) + args + kv("ok", ok) + kv("after", "[[1," + res(a) + "],[2," + res(b) + "],[3," + res(c) + "]" + "]"));
   };
   auto variant = [&](Names v, const char* other) { // a list of names, perhaps spoilt
      int k = g.range(0, 7);
      if (k == 0 && !v.empty()) {
         v[size_t(g.range(0, int(v.size()) - 1))] = Name(other);
      } else if (k == 1 && v.size() > 1) {
         int i = g.range(0, int(v.size()) - 1), q = g.range(0, int(v.size()) - 1);
         v[size_t(i)] = v[size_t(q)];
      } else if (k == 2 && !v.empty()) {
         v.erase(v.begin() + g.range(0, int(v.size()) - 1));
      } else if (k == 3) {
         v.push_back(g.chance(50) || v.empty() ? Name(other) : v[size_t(g.range(0, int(v.size()) - 1))]);
      }
      return v;
   };
   int steps = g.range(4, 8);
   for (int q = 0; q < steps; q++) {
      switch (g.range(0, 12)) {
         case 0: {
            auto v = variant(ns, "X1");
            log("rcreate", kv("names", jnames(v)) + kv("n", int(es.size())), [&] {
               auto t = T(v, es);
               return std::string();
            });
            break;
         }
         case 1: {
            auto v = ns;
            g.shuffle(v);
            v = variant(v, "X1");
            log("rtranspose", kv("src", 1) + kv("nn", jnames(v)), [&] {
               auto t = a.transpose(v);
               return std::string();
            });
            break;
         }
         case 2:
         case 3:
         case 4: {
            Pairs p;
            std::vector<size_t> x, y;
            for (size_t i = 0; i < ns.size(); i++) {
               x.push_back(i);
            }
            for (size_t i = 0; i < ns2.size(); i++) {
               y.push_back(i);
            }
            if (g.chance(60)) { // the pairs that fit
               for (size_t i = 0; i < std::min(ns.size(), ns2.size()); i++) {
                  if (g.chance(60)) {
                     p.push_back({ns[i], ns2[i]});
                  }
               }
            }
            if (p.empty() || g.chance(25)) {
               int n = g.range(1, 2);
               for (int i = 0; i < n; i++) {
                  p.push_back({g.pick(ns), g.pick(ns2)});
               }
            }
            auto ps = pset(p);
            Pairs once(ps.begin(), ps.end());
            bool spoilt = g.chance(25); // an arrow or a dimension is off
            auto bb = b;
            auto ee = es2;
            if (spoilt) {
               auto k = size_t(g.range(0, rank2 - 1));
               auto m = segs_of(ee[k]);
               bool ar = arrow_of(ee[k]);
               if (is_fermi && g.chance(50)) {
                  ar = !ar;
               } else {
                  auto it = m.begin();
                  std::advance(it, g.range(0, int(m.size()) - 1));
                  it->second += 1;
               }
               ee[k] = make_edge(m, ar);
               bb = make(g, ns2, ee, 4);
            }
            emit(head("input") + kv("dst", 4) + kv("res", res(bb)));
            log("rcontract", kv("a", 1) + kv("b", 4) + kv("pairs", jpairs(once)), [&] {
               auto pp = ps;
               auto t = a.contract(bb, std::move(pp));
               return std::string();
            });
            break;
         }
         case 5: {
            // a tensor with two edges to be traced, perhaps not fitting
            auto e = random_edge(g, 2, 3);
            auto f = partner(e);
            auto m = segs_of(f);
            if (g.chance(60)) {
               auto it = m.begin();
               std::advance(it, g.range(0, int(m.size()) - 1));
               it->second += Size(g.range(0, 1));
            }
            f = make_edge(m, arrow_of(f));
            Names nt{Name("T0"), Name("T1"), Name("T2")};
            auto t = make(g, nt, {e, random_edge(g, 2, 2), f}, 4);
            emit(head("input") + kv("dst", 4) + kv("res", res(t)));
            Pairs p{g.chance(50) ? std::tuple{nt[0], nt[2]} : std::tuple{nt[2], nt[0]}};
            log("rtrace", kv("src", 4) + kv("pairs", jpairs(p)), [&] {
               auto r = t.trace(pset(p));
               return std::string();
            });
            break;
         }
         case 6: {
            bool swap = g.chance(50);
            int f = g.range(0, 2);
            log("rbinary", kv("a", swap ? 3 : 1) + kv("b", swap ? 1 : 3), [&] {
               const auto& x = swap ? c : a;
               const auto& y = swap ? a : c;
               auto t = f == 0 ? x + y : f == 1 ? x - y : x * y;
               return std::string();
            });
            break;
         }
         case 7: {
            bool swap = g.chance(50);
            int f = g.range(0, 2);
            auto& x = swap ? c : a;
            const auto& y = swap ? a : c;
            auto z = g.chance(50) ? x : x.copy();
            bool own = false;
            if (g.chance(50)) { // on the object itself, if that will be refused
               own = x.names.size() != y.names.size() || toset(x.names) != toset(y.names);
            }
            auto& target = own ? x : z;
            head("rinplace");
            int ok = 1;
            try {
               if (f == 0) {
                  target += y;
               } else if (f == 1) {
                  target -= y;
               } else {
                  target *= y;
               }
            } catch (const std::exception&) {
               ok = 0;
            }
            emit(head("rinplace") + kv("a", swap ? 3 : 1) + kv("b", swap ? 1 : 3) + kv("ok", ok) +
                 kv("after", "[[1," + res(a) + "],[2," + res(b) + "],[3," + res(c) + "]" +
                                   (ok ? std::string() : ",[" + num(swap ? 3 : 1) + "," + res(target) + "]") + "]"));
            break;
         }
         case 8: {
            // mostly small tensors
            int k = g.range(0, 3);
            T t = a;
            if (k != 0) {
               int r = g.range(0, 2);
               std::vector<Edge> e;
               for (int i = 0; i < r; i++) {
                  Segs m = random_segs(g, g.range(1, 2), g.range(1, 2));
                  e.push_back(make_edge(m, g.chance(50)));
                  if (i == 1 && g.chance(60)) {
                     e[1] = partner(e[0]);
                  }
               }
               t = make(g, take(g, r, "S"), e, 5);
            }
            emit(head("input") + kv("dst", 4) + kv("res", res(t)));
            log("rscalar", kv("src", 4), [&] {
               auto v = Scalar(t);
               (void)v;
               return std::string();
            });
            break;
         }
         case 9: {
            std::map<Name, T::EdgePoint> cfg;
            std::string jc;
            bool f = true;
            for (size_t i = 0; i < ns.size(); i++) {
               if (a.core->edges[i].map.size() == 0) {
                  continue;
               }
               if (g.chance(60)) {
                  auto it = a.core->edges[i].map.begin();
                  std::advance(it, g.range(0, int(a.core->edges[i].map.size()) - 1));
                  auto p = make_point(it->first, Size(g.range(0, int(it->second) - 1)));
                  cfg.insert({ns[i], p});
                  jc += std::string(f ? "" : ",") + "[" + jn(ns[i]) + "," + jpoint(p) + "]";
                  f = false;
               }
            }
            bool nw = g.chance(30);
            bool ar = g.chance(50);
            log("rshrink", kv("src", 1) + kv("cfg", "[" + jc + "]") + kv("new", nw ? "[\"NEW\"," + bools(is_fermi && ar) + "]" : "[]"), [&] {
               auto t = nw ? a.shrink(cfg, Name("NEW"), ar) : a.shrink(cfg);
               return std::string();
            });
            break;
         }
         case 10: {
            // reading with a name left out, or at a block that does not exist
            std::map<Name, Sym> key;
            std::string jk;
            bool f = true;
            auto pl = sym_pool();
            for (size_t i = 0; i < ns.size(); i++) {
               if (g.chance(12)) {
                  continue;
               }
               auto& m = a.core->edges[i].map;
               Sym s = pl[size_t(g.range(0, int(pl.size()) - 1))];
               if (m.size() && g.chance(90)) {
                  auto it = m.begin();
                  std::advance(it, g.range(0, int(m.size()) - 1));
                  s = it->first;
               }
               key.insert({ns[i], s});
               jk += std::string(f ? "" : ",") + "[" + jn(ns[i]) + "," + j(s) + "]";
               f = false;
            }
            bool el = g.chance(50);
            log("rblock", kv("src", 1) + kv("el", bools(el)) + kv("key", "[" + jk + "]"), [&] {
               const T& ca = a;
               if (el) {
                  std::map<Name, T::EdgePoint> pos;
                  for (auto& [n, s] : key) {
                     pos.insert({n, make_point(s, 0)});
                  }
                  volatile double x = std::abs(ca.at(pos));
                  (void)x;
               } else {
                  volatile auto x = ca.block(key).size();
                  (void)x;
               }
               return std::string();
            });
            break;
         }
         case 11: {
            const char* dirs = "rRqQuxlv1";
            char d = dirs[g.range(0, 8)];
            auto f = subset(g, ns, 50);
            log("rqr", kv("src", 1) + kv("dir", quote(std::string(1, d))), [&] {
               auto t = a.qr(d, toset(f), Name("CQ"), Name("CR"));
               return std::string();
            });
            break;
         }
         default: {
            std::map<Name, T::EdgePointWithArrow> cfg;
            std::string jc;
            int n = g.range(1, 2);
            auto pl = sym_pool();
            Sym s = pl[size_t(g.range(0, int(pl.size()) - 1))];
            bool f = true;
            for (int i = 0; i < n; i++) {
               auto d = Size(g.range(1, 3));
               auto x = Size(g.range(0, int(d) - 1));
               bool ar = is_fermi && g.chance(50);
               auto nm = Name(i == 0 ? "E0" : "E1");
               cfg.insert({nm, make_expand(ar, s, x, d)});
               jc += std::string(f ? "" : ",") + "[" + jn(nm) + "," + bools(ar) + "," + j(s) + "," + num((long long)x) + "," + num((long long)d) + "]";
               f = false;
               s = g.chance(70) ? -s : pl[size_t(g.range(0, int(pl.size()) - 1))];
            }
            bool old = g.chance(40);
            auto on = g.pick(ns);
            log("rexpand", kv("src", 1) + kv("cfg", "[" + jc + "]") + kv("old", old ? "[" + jn(on) + "]" : "[]"), [&] {
               auto t = old ? a.expand(cfg, on) : a.expand(cfg);
               return std::string();
            });
            break;
         }
      }
   }
}
