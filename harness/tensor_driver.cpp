// Random driver of the tensor library.  Runs operations of one family on the
// real code and logs every operation with its arguments and its complete
// observable result; TensorTrace.tla decides whether the log is a behaviour of
// the specification.
//   tensor_driver FAMILY SEED COUNT LOGFILE [START]
// Families are compiled in by -DFAM_x.
#include "tensor_common.hpp"
using namespace h;

static std::string head(const char* op) {
   op_begin(op);
   return std::string("{\"op\":\"") + op + "\"";
}
static void emit(const std::string& s) {
   write_all(s + "}\n");
}
static int case_index = 0;
static void begin() {
   write_all("{\"op\":\"begin\",\"i\":" + num(case_index) + "}\n");
}
static std::string kv(const char* k, const std::string& v) {
   return std::string(",\"") + k + "\":" + v;
}
static std::string kv(const char* k, int v) {
   return std::string(",\"") + k + "\":" + num(v);
}
template<typename F>
static std::string guarded(F&& f) {
   try {
      return f();
   } catch (const std::exception&) {
      return err();
   }
}

using Names = std::vector<Name>;
using Pairs = std::vector<std::tuple<Name, Name>>;
static std::string jpairs(const Pairs& p) {
   return list(p, [](const auto& x) { return "[" + jn(std::get<0>(x)) + "," + jn(std::get<1>(x)) + "]"; });
}
static std::set<std::tuple<Name, Name>> pset(const Pairs& p) {
   return {p.begin(), p.end()};
}

static void fill_random(Rng& g, T& t, int m) {
   for (auto& [k, b] : t.core->blocks) {
      for (auto& v : b) {
         v = random_value(g, m);
      }
   }
}
static T make(Rng& g, const Names& ns, const std::vector<Edge>& es, int m = 4) {
   op_begin("make");
   auto t = T(ns, es);
   fill_random(g, t, m);
   return t;
}
static void input(int dst, const T& t) {
   emit(head("input") + kv("dst", dst) + kv("res", res(t)));
}
// shapes with a large dimension now and then
static std::vector<Edge> shape(Rng& g, int rank, size_t maxvol = 160) {
   int style = g.range(0, 9);
   if (style == 0) {
      return random_edges(g, rank, 3, 3, maxvol, false);
   } else if (style <= 2) {
      return random_edges(g, rank, 2, 6, maxvol);
   } else if (style <= 4) {
      return random_edges(g, rank, 4, 2, maxvol);
   } else if (style == 5) {
      return random_edges(g, rank, 5, 1, maxvol);
   }
   return random_edges(g, rank, 3, 3, maxvol);
}
static Names take(Rng& g, int n, const char* prefix = "N") {
   auto p = name_pool(prefix, n + 3);
   g.shuffle(p);
   p.resize(size_t(n));
   return p;
}
static Names subset(Rng& g, const Names& n, int percent) {
   Names r;
   for (const auto& x : n) {
      if (g.chance(percent)) {
         r.push_back(x);
      }
   }
   return r;
}
template<typename C>
static auto toset(const C& v) {
   return std::set<Name>(v.begin(), v.end());
}

#if defined(FAM_EDGE) || defined(FAM_MERGE)
struct EdgeOpArgs {
   std::map<Name, Name> ren;
   std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>> split;
   std::set<Name> rev;
   std::map<Name, Names> merge;
   Names nn;
   bool apply = false;
   std::array<std::set<Name>, 4> excl;
   std::map<Name, std::map<Sym, Size>> cut;
   std::string json() const {
      std::string r;
      r += kv("ren", list(ren, [](const auto& p) { return "[" + jn(p.first) + "," + jn(p.second) + "]"; }));
      r += kv("split", list(split, [](const auto& p) {
                 return "[" + jn(p.first) + "," + list(p.second, [](const auto& q) { return "[" + jn(std::get<0>(q)) + "," + jsegs(std::get<1>(q).map) + "]"; }) + "]";
              }));
      r += kv("rev", jnames(rev));
      r += kv("merge", list(merge, [](const auto& p) { return "[" + jn(p.first) + "," + jnames(p.second) + "]"; }));
      r += kv("nn", jnames(nn));
      r += kv("apply", bools(apply));
      r += kv("excl", list(excl, [](const auto& s) { return jnames(s); }));
      r += kv("cut", list(cut, [](const auto& p) { return "[" + jn(p.first) + "," + jsegs(p.second) + "]"; }));
      return r;
   }
   T run(const T& t) const {
      return t.edge_operator(ren, split, rev, merge, nn, apply, excl, cut);
   }
};
#endif

// ---------------------------------------------------------------- C01
#ifdef FAM_BUILD
static std::string jpos_no(const T&, const std::map<Name, Size>&);
static void fam_build(Rng& g) {
   begin();
   zero_dims = g.chance(10) ? 12 : 0;
   int rank = g.range(0, 5);
   auto ns = take(g, rank);
   auto es = shape(g, rank, 120);
   if (g.chance(15) && rank) { // a dimension of zero
      auto& e = es[size_t(g.range(0, rank - 1))];
      auto m = segs_of(e);
      m.begin()->second = 0;
      e = make_edge(m, arrow_of(e));
   }
   if constexpr (!is_no) {
      if (g.chance(10) && rank) { // an edge without any symmetry
         es[size_t(g.range(0, rank - 1))] = make_edge(Segs(), g.chance(50));
      }
   }
   bool autorev = false;
   if constexpr (is_fermi) {
      autorev = g.chance(25);
   }
   T t;
   auto jes = list(es, [](const auto& e) { return jedge(e); });
   auto vol = int(volume(es));
   int mode = g.range(0, 2);
   std::string fill;
   auto first = random_value(g, 9), step = random_value(g, 5);
   std::vector<Scalar> given;
   for (int i = 0; i < vol; i++) {
      given.push_back(random_value(g, 99));
   }
   head("create");
   auto r = guarded([&] {
      t = T(ns, es, autorev);
      if (mode == 0) {
         t.test(first, step);
      } else if (mode == 1) {
         size_t i = 0;
         t.set([&] { return i < given.size() ? given[i++] : (i++, Scalar(12345)); });
      } else {
         t.zero();
      }
      return res(t);
   });
   if (mode == 0) {
      given.clear();
      auto v = first;
      for (int i = 0; i < vol; i++, v += step) {
         given.push_back(v);
      }
   } else if (mode == 2) {
      given.assign(size_t(vol), Scalar(0));
   }
   emit(head("create") + kv("dst", 1) + kv("names", jnames(ns)) + kv("in", jes) + kv("autorev", autorev ? 1 : 0) +
        kv("given", list(given, [](const auto& v) { return jv(v); })) + kv("res", r));
   if (!t.core) {
      return;
   }
   // element access
   for (int n = g.range(1, 4); n-- > 0;) {
      if (t.core->blocks.begin() == t.core->blocks.end()) {
         break;
      }
      auto it = t.core->blocks.begin();
      std::advance(it, g.range(0, int(t.core->blocks.size()) - 1));
      if (it->second.empty()) {
         continue;
      }
      std::vector<std::pair<Name, T::EdgePoint>> pos;
      std::vector<std::pair<Name, Sym>> key;
      for (int i = 0; i < rank; i++) {
         auto s = is_no ? Sym() : it->first[size_t(i)];
         auto d = t.core->edges[size_t(i)].map.at(s);
         auto x = Size(g.range(0, int(d) - 1));
         pos.push_back({ns[size_t(i)], make_point(s, x)});
         key.push_back({ns[size_t(i)], s});
      }
      g.shuffle(pos);
      g.shuffle(key);
      auto pm = std::map<Name, T::EdgePoint>(pos.begin(), pos.end());
      auto km = std::map<Name, Sym>(key.begin(), key.end());
      auto jp = list(pos, [](const auto& p) { return "[" + jn(p.first) + "," + jpoint(p.second) + "]"; });
      auto jk = list(key, [](const auto& p) { return "[" + jn(p.first) + "," + j(p.second) + "]"; });
      auto value = [&](auto&& f) {
         return guarded([&]() -> std::string { return "{\"ok\":1,\"val\":" + jv(f()) + "}"; });
      };
      switch (g.range(0, 4)) {
         case 0: {
            head("at");
            auto v = value([&] { return std::as_const(t).at(pm); });
            emit(head("at") + kv("src", 1) + kv("pos", jp) + kv("res", v));
            break;
         }
         case 1: {
            head("at");
            auto v = value([&] { return t.const_at(pm); });
            emit(head("at") + kv("src", 1) + kv("pos", jp) + kv("res", v));
            break;
         }
         case 2: {
            auto v = random_value(g, 1000);
            head("setat");
            auto r2 = guarded([&] {
               t.at(pm) = v;
               return res(t);
            });
            emit(head("setat") + kv("src", 1) + kv("pos", jp) + kv("val", jv(v)) + kv("dst", 1) + kv("res", r2));
            break;
         }
         case 3: {
            head("block");
            auto r2 = guarded([&] {
               const auto& b = g.chance(50) ? std::as_const(t).block(km) : t.const_block(km);
               return "{\"ok\":1,\"val\":" + list(b, [](const auto& v) { return jv(v); }) + "}";
            });
            emit(head("block") + kv("src", 1) + kv("key", jk) + kv("res", r2));
            break;
         }
         default: {
            head("setblock");
            auto start = random_value(g, 1000);
            auto r2 = guarded([&] {
               auto v = start;
               for (auto& x : t.block(km)) {
                  x = v;
                  v += Scalar(1);
               }
               return res(t);
            });
            emit(head("setblock") + kv("src", 1) + kv("key", jk) + kv("val", jv(start)) + kv("dst", 1) + kv("res", r2));
         }
      }
   }
   if (g.chance(30)) {
      // one number in a tensor of high rank
      int r2 = g.range(0, 4);
      auto n2 = take(g, r2);
      std::vector<Sym> sy;
      std::vector<TAT::Arrow> ar;
      auto pool = sym_pool();
      Sym tot;
      for (int i = 0; i < r2; i++) {
         sy.push_back(i == r2 - 1 ? -tot : g.pick(pool));
         tot += sy.back();
         ar.push_back(g.chance(50));
      }
      auto v = random_value(g, 1000);
      head("one");
      auto q = guarded([&] {
         if (r2 == 0 && g.chance(50)) {
            auto x = T(v);
            return res(x);
         }
         auto x = T::one(v, n2, sy, ar);
         return res(x);
      });
      auto e2 = std::string("[");
      for (int i = 0; i < r2; i++) {
         e2 += (i ? "," : "") + ("[" + num(is_fermi && ar[size_t(i)] ? 1 : 0) + ",[[" + j(sy[size_t(i)]) + ",1]]]");
      }
      emit(head("create") + kv("dst", 2) + kv("names", jnames(n2)) + kv("in", e2 + "]") + kv("autorev", 0) + kv("given", "[" + jv(v) + "]") + kv("res", q));
      // reading the only element
      op_begin("scalar");
      auto one = T::one(v, n2, sy, ar);
      input(3, one);
      head("scalar");
      auto q2 = guarded([&] { return "{\"ok\":1,\"val\":" + jv(Scalar(one)) + "}"; });
      emit(head("scalar") + kv("src", 3) + kv("res", q2));
   }
}
#endif

// ---------------------------------------------------------------- C02
#ifdef FAM_EDGE
static void fam_edge(Rng& g) {
   begin();
   zero_dims = g.chance(10) ? 12 : 0;
   int rank = g.chance(8) ? g.range(7, 10) : g.range(0, 6);
   auto ns = take(g, rank);
   auto es = shape(g, rank, 200);
   if (g.chance(30) && rank >= 1) { // long lines
      es.resize(size_t(std::min(rank, 4)));
      ns.resize(es.size());
      rank = int(es.size());
      for (int k = g.range(1, 2); k-- > 0;) {
         auto& e = es[size_t(g.range(0, rank - 1))];
         auto m = segs_of(e);
         for (auto& [s, d] : m) {
            d = Size(g.range(1, 19));
            if (zero_dims && g.chance(20)) {
               d = 0;
            }
         }
         e = make_edge(m, arrow_of(e));
      }
      for (int k = 0; volume(es) > 700 && k < 100; k++) {
         auto& e = es[size_t(g.range(0, rank - 1))];
         auto m = segs_of(e);
         for (auto& [s, d] : m) {
            d = std::max<Size>(std::min<Size>(d, 1), d / 2);
         }
         e = make_edge(m, arrow_of(e));
      }
   }
   auto t = make(g, ns, es, 50);
   input(1, t);
   int rounds = g.range(1, 3);
   for (int i = 0; i < rounds; i++) {
      ns = t.names;
      auto nn = ns;
      int style = g.range(0, 5);
      if (style == 0 && !nn.empty()) { // neighbours exchanged
         auto p = size_t(g.range(0, std::max(0, int(nn.size()) - 2)));
         if (p + 1 < nn.size()) {
            std::swap(nn[p], nn[p + 1]);
         }
      } else if (style == 1 && !nn.empty()) { // rotation: long lines stay together
         std::rotate(nn.begin(), nn.begin() + g.range(0, int(nn.size()) - 1), nn.end());
      } else if (style == 2) {
         // unchanged
      } else {
         g.shuffle(nn);
      }
      T r;
      std::string s;
      switch (g.range(0, 4)) {
         case 0:
         case 1: {
            head("transpose");
            s = guarded([&] { return res(r = t.transpose(nn)); });
            emit(head("transpose") + kv("src", 1) + kv("nn", jnames(nn)) + kv("dst", 1) + kv("res", s));
            break;
         }
         case 2: {
            std::map<Name, Name> ren;
            auto fresh = take(g, int(ns.size()), i == 0 ? "M" : i == 1 ? "P" : "Q");
            for (size_t k = 0; k < ns.size(); k++) {
               if (g.chance(50)) {
                  ren[ns[k]] = fresh[k];
               }
            }
            if (g.chance(30) && ns.size() >= 2) { // a permutation of the names
               ren.clear();
               auto q = ns;
               g.shuffle(q);
               for (size_t k = 0; k < ns.size(); k++) {
                  ren[ns[k]] = q[k];
               }
            }
            if (g.chance(30)) {
               ren[Name("absent")] = Name("nowhere");
            }
            head("rename");
            s = guarded([&] { return res(r = t.edge_rename(ren)); });
            emit(head("rename") + kv("src", 1) + kv("ren", list(ren, [](const auto& p) { return "[" + jn(p.first) + "," + jn(p.second) + "]"; })) + kv("dst", 1) +
                 kv("res", s));
            break;
         }
         case 3: {
            auto rev = toset(subset(g, ns, 50));
            auto ex = toset(subset(g, ns, 30));
            bool ap = g.chance(50);
            head("reverse");
            s = guarded([&] {
               auto e2 = ex;
               return res(r = t.reverse_edge(rev, ap, std::move(e2)));
            });
            emit(head("reverse") + kv("src", 1) + kv("rev", jnames(rev)) + kv("apply", bools(ap)) + kv("excl", jnames(ex)) + kv("dst", 1) + kv("res", s));
            break;
         }
         default: {
            EdgeOpArgs a;
            auto fresh = take(g, int(ns.size()), i == 0 ? "M" : i == 1 ? "P" : "Q");
            Names after;
            for (size_t k = 0; k < ns.size(); k++) {
               auto n = ns[k];
               if (g.chance(30)) {
                  n = a.ren[ns[k]] = fresh[k];
               }
               after.push_back(n);
               if (g.chance(25)) {
                  auto& c = a.cut[ns[k]];
                  for (const auto& [sy, d] : t.core->edges[k].map) {
                     if (d == 0) {
                        // a segment that is empty already
                     } else if (g.chance(60) && !(is_no)) {
                        c[sy] = Size(g.range(0, int(d) + 1));
                     } else if (is_no) {
                        c[sy] = Size(g.range(1, int(d) + 1));
                     }
                  }
               }
            }
            a.rev = toset(subset(g, after, 30));
            a.apply = g.chance(50);
            for (auto& e : a.excl) {
               e = toset(subset(g, after, 20));
            }
            a.nn = after;
            if (g.chance(70)) {
               g.shuffle(a.nn);
            }
            head("edgeop");
            s = guarded([&] { return res(r = a.run(t)); });
            emit(head("edgeop") + kv("src", 1) + a.json() + kv("dst", 1) + kv("res", s));
         }
      }
      if (!r.core) {
         return;
      }
      t = r;
   }
}
// a tensor bigger than the caches: the elements are their own storage
// positions, so any element of the transposed tensor can be checked by formula
static void fam_bigedge(Rng& g) {
   if constexpr (is_no) {
      int rank = g.range(2, 5);
      std::vector<Size> d(size_t(rank), 1);
      size_t want = size_t(g.range(7000, 150000));
      size_t vol = 1;
      while (vol < want) {
         auto i = size_t(g.range(0, rank - 1));
         if (d[i] > 1 && g.chance(60)) {
            i = size_t(g.range(0, rank - 1));
         }
         vol = vol / d[i] * (d[i] + 1);
         d[i]++;
      }
      if (g.chance(25)) { // one very long edge
         for (auto& x : d) {
            x = Size(g.range(1, 4));
         }
         d[size_t(g.chance(60) ? rank - 1 : g.range(0, rank - 1))] = Size(g.range(30000, 90000));
      }
      Names ns = take(g, rank);
      auto perm = std::vector<int>();
      for (int i = 0; i < rank; i++) {
         perm.push_back(i);
      }
      g.shuffle(perm);
      if (g.chance(30)) {
         for (int i = 0; i < rank; i++) {
            perm[size_t(i)] = (i + 1) % rank;
         }
      }
      std::vector<Edge> es;
      for (auto x : d) {
         es.push_back(Edge(x));
      }
      op_begin("bigtranspose");
      auto t = T(ns, es).test();
      Names nn;
      for (int p : perm) {
         nn.push_back(ns[size_t(p)]);
      }
      head("bigtranspose");
      std::string s = guarded([&] {
         auto r = t.transpose(nn);
         std::string q = "[";
         const auto& b = r.core->blocks.begin()->second;
         size_t len = b.size();
         for (int k = 0; k < 400; k++) {
            size_t p = k < 40 ? size_t(k) : k < 80 ? len - 1 - size_t(k - 40) : size_t(g.next() % len);
            inexact = false;
            auto v = jr(double(std::real(b[p])), 1);
            q += std::string(k ? "," : "") + "[" + num((long long)p) + "," + v + "," + bools(inexact) + "]";
         }
         return "{\"ok\":1,\"len\":" + num((long long)len) + ",\"samples\":" + q + "]}";
      });
      emit(head("bigtranspose") + kv("dims", list(d, [](auto x) { return num((long long)x); })) + kv("perm", list(perm, [](int x) { return num(x + 1); })) +
           kv("res", s));
   }
}
#endif

// ---------------------------------------------------------------- C03
#ifdef FAM_MERGE
// split edges that were not made by a merge: the pieces may have combinations
// the edge does not have (zero blocks), and the edge may lack some of theirs
static void direct_split(Rng& g) {
   for (int tries = 0; tries < 50; tries++) {
      int rank = g.range(1, 4);
      auto ns = take(g, rank);
      auto es = shape(g, rank, 60);
      std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>> sp;
      auto all = es;
      for (int i = 0; i < rank; i++) {
         if (!g.chance(i == 0 ? 90 : 40)) {
            continue;
         }
         auto& q = sp[ns[size_t(i)]];
         int n = g.range(0, 3);
         Segs total;
         if (n == 1) { // only a new name, and maybe more symmetries
            total = segs_of(es[size_t(i)]);
            auto more = total;
            if (!is_no) {
               for (auto& [sy, d] : random_segs(g, 2, 2)) {
                  more.insert({sy, d});
               }
            }
            q.push_back({Name("s" + std::to_string(i)), TAT::BoseEdge<Sym>(make_edge(more, false).map)});
         } else {
            total[Sym()] = 1;
            for (int k = 0; k < n; k++) {
               auto piece = random_segs(g, 2, 2);
               Segs next;
               for (auto& [a, d] : total) {
                  for (auto& [b, f] : piece) {
                     next[a + b] += d * f;
                  }
               }
               total = next;
               q.push_back({Name("s" + std::to_string(i) + "_" + std::to_string(k)), TAT::BoseEdge<Sym>(make_edge(piece, false).map)});
            }
            if (!is_no && n && total.size() > 1 && g.chance(50)) {
               auto it = total.begin();
               std::advance(it, g.range(0, int(total.size()) - 1));
               total.erase(it);
            }
            if (!is_no && (n == 0 || g.chance(30))) {
               auto more = random_segs(g, 2, 2);
               for (auto& [sy, d] : more) { // symmetries no combination of the pieces has
                  if (n == 0 ? sy != Sym() : !total.count(sy) && g.chance(0)) {
                     total.insert({sy, d});
                  }
               }
               if (n == 0 && total.size() > 1 && g.chance(40)) {
                  total.erase(Sym());
               }
            }
         }
         es[size_t(i)] = make_edge(total, arrow_of(es[size_t(i)]));
      }
      std::vector<Edge> after;
      for (int i = 0; i < rank; i++) {
         auto f = sp.find(ns[size_t(i)]);
         if (f == sp.end()) {
            after.push_back(es[size_t(i)]);
         } else {
            for (auto& [n, e] : f->second) {
               Segs m;
               for (auto& [sy, d] : e.map) {
                  m[sy] = d;
               }
               after.push_back(make_edge(m, false));
            }
         }
      }
      if (volume(es) > 150 || volume(after) > 200 || combos(after) > 150) {
         continue;
      }
      auto t = make(g, ns, es, 50);
      input(1, t);
      bool ap = g.chance(50);
      auto excl = toset(subset(g, ns, 40));
      T u;
      head("split");
      auto s = guarded([&] {
         auto a = excl;
         return res(u = t.split_edge(sp, ap, std::move(a)));
      });
      emit(head("split") + kv("src", 1) + kv("split", list(sp, [](const auto& p) {
                                              return "[" + jn(p.first) + "," +
                                                     list(p.second, [](const auto& q) { return "[" + jn(std::get<0>(q)) + "," + jsegs(std::get<1>(q).map) + "]"; }) + "]";
                                           })) +
           kv("apply", bools(ap)) + kv("excl", jnames(excl)) + kv("dst", 2) + kv("res", s));
      return;
   }
}

static void fam_merge(Rng& g) {
   begin();
   zero_dims = g.chance(8) ? 12 : 0;
   if (g.chance(15)) {
      return direct_split(g);
   }
   int rank = g.range(0, 6);
   auto ns = take(g, rank);
   auto es = shape(g, rank, 150);
   auto t = make(g, ns, es, 50);
   input(1, t);
   std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>> inverse;
   auto edge_of = [](const T& x, const Name& n) { return x.core->edges[size_t(x.name_to_index.at(n))]; };
   int kind = g.range(0, 3);
   auto groups = [&](const Names& all, const char* prefix, bool absent) {
      auto q = all;
      if (g.chance(60)) {
         g.shuffle(q);
      } else if (!q.empty()) { // neighbours stay together: whole ranges of memory move as one
         q.erase(q.begin(), q.begin() + g.range(0, int(q.size()) / 2));
      }
      std::map<Name, Names> m;
      int n = g.range(1, 3);
      size_t p = 0;
      for (int i = 0; i < n; i++) {
         Names v;
         for (int k = g.range(0, 3); k-- > 0 && p < q.size();) {
            v.push_back(q[p++]);
         }
         if (absent && g.chance(20)) {
            v.insert(v.begin() + g.range(0, int(v.size())), Name("absent"));
         }
         m[Name(prefix + std::to_string(i))] = v;
      }
      return m;
   };
   if (kind <= 2) {
      auto m = groups(ns, "G", true);
      bool ap = g.chance(50);
      Names mn;
      for (auto& [k, v] : m) {
         mn.push_back(k);
      }
      auto ex1 = toset(subset(g, mn, 40));
      auto ex2 = toset(subset(g, ns, 30));
      T r;
      head("merge");
      auto s = guarded([&] {
         auto a = ex1;
         auto b = ex2;
         return res(r = t.merge_edge(m, ap, std::move(a), std::move(b)));
      });
      emit(head("merge") + kv("src", 1) + kv("merge", list(m, [](const auto& p) { return "[" + jn(p.first) + "," + jnames(p.second) + "]"; })) +
           kv("apply", bools(ap)) + kv("exm", jnames(ex1)) + kv("exr", jnames(ex2)) + kv("dst", 2) + kv("res", s));
      if (!r.core) {
         return;
      }
      // split back
      std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>> sp;
      for (auto& [k, v] : m) {
         auto& x = sp[k];
         for (auto& n : v) {
            if (t.name_to_index.count(n)) {
               x.push_back({n, TAT::BoseEdge<Sym>(edge_of(t, n).map)});
            }
         }
      }
      if (g.chance(20)) {
         sp[Name("absent")] = {{Name("nowhere"), TAT::BoseEdge<Sym>(1)}};
      }
      bool ap2 = g.chance(60) ? ap : !ap;
      auto ex3 = g.chance(60) ? ex1 : toset(subset(g, mn, 40));
      T u;
      head("split");
      s = guarded([&] {
         auto a = ex3;
         return res(u = r.split_edge(sp, ap2, std::move(a)));
      });
      emit(head("split") + kv("src", 2) + kv("split", list(sp, [](const auto& p) {
                                              return "[" + jn(p.first) + "," +
                                                     list(p.second, [](const auto& q) { return "[" + jn(std::get<0>(q)) + "," + jsegs(std::get<1>(q).map) + "]"; }) + "]";
                                           })) +
           kv("apply", bools(ap2)) + kv("excl", jnames(ex3)) + kv("dst", 3) + kv("res", s));
   } else {
      // everything in one operation: first merge by one edge operation, then
      // split, reverse, transpose and merge differently in a second one
      EdgeOpArgs a;
      a.merge = groups(ns, "G", false);
      Names rest, fin;
      std::set<Name> used;
      for (auto& [k, v] : a.merge) {
         fin.push_back(k);
         used.insert(v.begin(), v.end());
      }
      for (auto& n : ns) {
         if (!used.count(n)) {
            fin.push_back(n);
         }
      }
      g.shuffle(fin);
      a.nn = fin;
      a.rev = toset(subset(g, ns, 30));
      a.apply = g.chance(50);
      a.excl[1] = toset(subset(g, ns, 30));
      a.excl[2] = toset(subset(g, ns, 30));
      a.excl[3] = toset(subset(g, fin, 30));
      T r;
      head("edgeop");
      auto s = guarded([&] { return res(r = a.run(t)); });
      emit(head("edgeop") + kv("src", 1) + a.json() + kv("dst", 2) + kv("res", s));
      if (!r.core) {
         return;
      }
      EdgeOpArgs b;
      Names after; // names after rename and split
      for (auto& n : r.names) {
         auto x = n;
         if (g.chance(25)) {
            x = b.ren[n] = Name("R" + static_cast<const std::string&>(n));
         }
         if (a.merge.count(n) && g.chance(80)) {
            auto& q = b.split[x];
            for (auto& y : a.merge[n]) {
               q.push_back({y, TAT::BoseEdge<Sym>(edge_of(t, y).map)});
               after.push_back(y);
            }
         } else {
            after.push_back(x);
         }
      }
      b.merge = groups(after, "H", false);
      used.clear();
      fin.clear();
      for (auto& [k, v] : b.merge) {
         fin.push_back(k);
         used.insert(v.begin(), v.end());
      }
      for (auto& n : after) {
         if (!used.count(n)) {
            fin.push_back(n);
         }
      }
      g.shuffle(fin);
      b.nn = fin;
      b.rev = toset(subset(g, after, 30));
      b.apply = g.chance(50);
      Names splitnames;
      for (auto& [k, v] : b.split) {
         splitnames.push_back(k);
      }
      b.excl[0] = toset(subset(g, splitnames, 40));
      b.excl[1] = toset(subset(g, after, 30));
      b.excl[2] = toset(subset(g, after, 30));
      b.excl[3] = toset(subset(g, fin, 30));
      if (volume(r) > 0 && g.chance(30)) {
         for (auto& n : r.names) {
            bool split_it = b.split.count(b.ren.count(n) ? b.ren[n] : n);
            if (g.chance(30) && !split_it) {
               for (const auto& [sy, d] : edge_of(r, n).map) {
                  if (d != 0 && g.chance(50)) {
                     b.cut[n][sy] = Size(g.range(is_no ? 1 : 0, int(d)));
                  }
               }
            }
         }
      }
      T u;
      head("edgeop");
      s = guarded([&] { return res(u = b.run(r)); });
      emit(head("edgeop") + kv("src", 2) + b.json() + kv("dst", 3) + kv("res", s));
   }
}
#endif

// ---------------------------------------------------------------- C04
#ifdef FAM_CONTRACT
static void fam_contract(Rng& g) {
   begin();
   zero_dims = g.chance(10) ? 12 : 0;
   static bool first = true;
   if (std::exchange(first, false)) {
      if constexpr (std::is_same_v<Sym, TAT::U1Symmetry>) { // the example of finding F01
         auto pool = sym_pool();
         Segs m;
         for (size_t i = 1; i <= 3; i++) { // -1, 0, 1
            m[pool[i]] = 1;
         }
         std::vector<Edge> e{make_edge(m, false), make_edge(m, false)};
         Names a1{Name("A"), Name("B")}, a2{Name("C"), Name("D")};
         auto t1 = T(a1, e).test(1), t2 = T(a2, e).test(1);
         input(1, t1);
         input(2, t2);
         Pairs pairs{{a1[0], a2[0]}, {a1[1], a2[1]}};
         T r;
         head("contract");
         auto s = guarded([&] {
            auto ps = pset(pairs);
            return res(r = t1.contract(t2, std::move(ps)));
         });
         emit(head("contract") + kv("a", 1) + kv("b", 2) + kv("pairs", jpairs(pairs)) + kv("dst", 3) + kv("res", s));
         return;
      }
   }
   int nc = g.range(0, 3), n1 = g.range(0, 3), n2 = g.range(0, 3);
   int nf = is_no && g.chance(35) ? g.range(1, 2) : 0;
   if (nc + n1 > 5) {
      n1 = 2;
   }
   for (int tries = 0; tries < 50; tries++) {
      std::vector<Edge> e1, e2;
      Names a1, a2;
      Pairs pairs;
      bool same = g.chance(25); // contracted edges have the same name on both sides
      auto pool = name_pool("N", 16);
      g.shuffle(pool);
      size_t p = 0;
      std::vector<int> where1, where2;
      int ms = g.range(1, 3), md = g.range(1, 3);
      bool partial = !is_no && g.chance(30);
      for (int i = 0; i < nc; i++) {
         auto e = random_edge(g, ms, md);
         auto f = partner(e);
         if (partial) { // extra symmetries on either side
            auto m = segs_of(f);
            auto x = random_segs(g, 2, 3);
            for (auto& [s, d] : x) {
               m.insert({s, d});
            }
            if (m.size() > 1 && g.chance(50)) {
               m.erase(m.begin());
            }
            f = make_edge(m, arrow_of(f));
            // dimensions have to agree where both have the symmetry
            auto q = segs_of(f);
            for (auto& [s, d] : segs_of(e)) {
               if (q.count(-s)) {
                  q[-s] = d;
               }
            }
            f = make_edge(q, arrow_of(f));
         }
         e1.push_back(e);
         e2.push_back(f);
         a1.push_back(pool[p++]);
         a2.push_back(same ? a1.back() : pool[p++]);
         pairs.push_back({a1.back(), a2.back()});
      }
      for (int i = 0; i < nf; i++) {
         auto e = random_edge(g, 1, 3);
         e1.push_back(e);
         e2.push_back(e);
         a1.push_back(pool[p]);
         a2.push_back(pool[p++]);
      }
      // a name that is contracted on one side may be the name of a free edge of the other
      Names reuse1, reuse2;
      if (!same && g.chance(20)) {
         for (auto& [x, y] : pairs) {
            reuse1.push_back(y);
            reuse2.push_back(x);
         }
      }
      auto free_name = [&](Names& reuse, const Names& own) {
         if (!reuse.empty() && g.chance(60)) {
            auto n = reuse.back();
            reuse.pop_back();
            if (std::find(own.begin(), own.end(), n) == own.end()) {
               return n;
            }
         }
         return pool[p++];
      };
      for (int i = 0; i < n1; i++) {
         e1.push_back(random_edge(g, ms, md));
         a1.push_back(free_name(reuse1, a1));
      }
      for (int i = 0; i < n2; i++) {
         e2.push_back(random_edge(g, ms, md));
         a2.push_back(free_name(reuse2, a2));
      }
      if (n1) {
         make_compatible(g, e1, e1.size() - 1);
      }
      if (n2) {
         make_compatible(g, e2, e2.size() - 1);
      }
      // shuffle the edges, sometimes only a little so that the groups stay in place
      auto shuffle = [&](Names& n, std::vector<Edge>& e) {
         std::vector<size_t> o;
         for (size_t i = 0; i < n.size(); i++) {
            o.push_back(i);
         }
         if (g.chance(50)) {
            g.shuffle(o);
         } else if (!o.empty()) {
            std::rotate(o.begin(), o.begin() + g.range(0, int(o.size()) - 1), o.end());
         }
         Names nn;
         std::vector<Edge> ee;
         for (auto i : o) {
            nn.push_back(n[i]);
            ee.push_back(e[i]);
         }
         n = nn;
         e = ee;
      };
      shuffle(a1, e1);
      shuffle(a2, e2);
      size_t v1 = volume(e1), v2 = volume(e2);
      if (v1 > 120 || v2 > 120 || combos(e1) > 120 || combos(e2) > 120) {
         continue;
      }
      if ((v1 == 0 || v2 == 0) && g.chance(zero_dims ? 20 : 85)) {
         continue;
      }
      std::vector<Edge> er;
      size_t contracted = 1;
      for (size_t i = 0; i < a1.size(); i++) {
         bool c = false;
         for (auto& q : pairs) {
            c |= std::get<0>(q) == a1[i];
         }
         if (c) {
            contracted *= dim(e1[i]);
         } else {
            er.push_back(e1[i]);
         }
      }
      for (size_t i = 0; i < a2.size(); i++) {
         bool c = false;
         for (auto& q : pairs) {
            c |= std::get<1>(q) == a2[i];
         }
         c |= nf && reuse1.empty() && std::find(a1.begin(), a1.end(), a2[i]) != a1.end() && !same;
         if (!c) {
            er.push_back(e2[i]);
         }
      }
      if (volume(er) * contracted > 2500 || volume(er) > 150 || combos(er) > 200) {
         continue;
      }
      auto t1 = make(g, a1, e1, 9), t2 = make(g, a2, e2, 9);
      input(1, t1);
      input(2, t2);
      if (g.chance(15)) {
         pairs.push_back({Name("absent"), a2.empty() ? Name("absent") : a2[0]});
      }
      T r;
      bool all = same && g.chance(50);
      if (all) {
         // every common name is contracted
         head("contractall");
         auto s = guarded([&] { return res(r = t1.contract_all_edge(t2)); });
         emit(head("contractall") + kv("a", 1) + kv("b", 2) + kv("dst", 3) + kv("res", s));
      } else {
         g.shuffle(pairs);
         head("contract");
         auto s = guarded([&] {
            auto ps = pset(pairs);
            return res(r = t1.contract(t2, std::move(ps)));
         });
         emit(head("contract") + kv("a", 1) + kv("b", 2) + kv("pairs", jpairs(pairs)) + kv("dst", 3) + kv("res", s));
      }
      if (!r.core) {
         return;
      }
      // go on with the result: contract it with a third tensor
      if (g.chance(40) && !r.names.empty() && volume(r) && magnitude(r) < 1e4) {
         auto n = g.pick(r.names);
         auto f = partner(r.core->edges[size_t(r.name_to_index.at(n))]);
         std::vector<Edge> e3{f, random_edge(g, 2, 2)};
         make_compatible(g, e3, 1);
         Names a3{Name("X"), Name("Y")};
         if (g.chance(50)) {
            std::swap(e3[0], e3[1]);
            std::swap(a3[0], a3[1]);
         }
         auto t3 = make(g, a3, e3, 9);
         input(4, t3);
         T r2;
         Pairs p3;
         head("contract");
         std::string s;
         bool left = g.chance(50);
         if (left) {
            p3 = {{n, Name("X")}};
            s = guarded([&] {
               auto ps = pset(p3);
               return res(r2 = r.contract(t3, std::move(ps)));
            });
         } else {
            p3 = {{Name("X"), n}};
            s = guarded([&] {
               auto ps = pset(p3);
               return res(r2 = t3.contract(r, std::move(ps)));
            });
         }
         emit(head("contract") + kv("a", left ? 3 : 4) + kv("b", left ? 4 : 3) + kv("pairs", jpairs(p3)) + kv("dst", 5) + kv("res", s));
      }
      return;
   }
}
#endif

// ---------------------------------------------------------------- C05
#ifdef FAM_TRACE
static void fam_trace(Rng& g) {
   begin();
   zero_dims = g.chance(10) ? 12 : 0;
   for (int tries = 0; tries < 50; tries++) {
      int np = g.range(0, 3), nf = g.range(0, np >= 3 ? 1 : 3);
      auto ns = take(g, 2 * np + nf);
      std::vector<Edge> es;
      Pairs pairs;
      size_t p = 0;
      int ms = g.range(1, 3), md = g.range(1, 3);
      for (int i = 0; i < np; i++) {
         auto e = random_edge(g, ms, md);
         auto f = partner(e);
         if (!is_no && g.chance(25)) {
            auto m = segs_of(f);
            for (auto& [s, d] : random_segs(g, 2, 3)) {
               m.insert({s, d});
            }
            if (m.size() > 1 && g.chance(50)) {
               m.erase(m.begin());
            }
            for (auto& [s, d] : segs_of(e)) {
               if (m.count(-s)) {
                  m[-s] = d;
               }
            }
            f = make_edge(m, arrow_of(f));
         }
         es.push_back(e);
         es.push_back(f);
         pairs.push_back({ns[p], ns[p + 1]});
         if (g.chance(50)) {
            pairs.back() = {ns[p + 1], ns[p]};
         }
         p += 2;
      }
      for (int i = 0; i < nf; i++) {
         es.push_back(random_edge(g, ms, md));
      }
      if (nf) {
         make_compatible(g, es, es.size() - 1);
      }
      std::vector<size_t> o;
      for (size_t i = 0; i < es.size(); i++) {
         o.push_back(i);
      }
      g.shuffle(o);
      Names nn;
      std::vector<Edge> ee;
      for (auto i : o) {
         nn.push_back(ns[i]);
         ee.push_back(es[i]);
      }
      if (volume(ee) > 200 || combos(ee) > 300 || (volume(ee) == 0 && g.chance(85))) {
         continue;
      }
      auto t = make(g, nn, ee, 50);
      input(1, t);
      g.shuffle(pairs);
      head("trace");
      auto s = guarded([&] { return res(t.trace(pset(pairs))); });
      emit(head("trace") + kv("src", 1) + kv("pairs", jpairs(pairs)) + kv("dst", 2) + kv("res", s));
      return;
   }
}
#endif

// ---------------------------------------------------------------- C06
#ifdef FAM_CONJ
static void fam_conj(Rng& g) {
   begin();
   zero_dims = g.chance(10) ? 12 : 0;
   int rank = g.range(0, 5);
   auto ns = take(g, rank);
   auto t = make(g, ns, shape(g, rank, 200), 50);
   input(1, t);
   head("conj");
   T r;
   auto s = guarded([&] { return res(r = t.conjugate()); });
   emit(head("conj") + kv("src", 1) + kv("dst", 2) + kv("res", s));
   if (r.core) {
      head("conj");
      auto s2 = guarded([&] { return res(r.conjugate()); });
      emit(head("conj") + kv("src", 2) + kv("dst", 3) + kv("res", s2));
   }
   // norms, in a form that is an integer
   auto n2 = t.norm<2>();
   auto n0 = t.norm<0>();
   auto jn2 = [&](double v) {
      inexact = false;
      auto q = jr(std::round(v * v * 1e6) / 1e6, 1);
      return q;
   };
   head("norm");
   std::string body = kv("n2", jn2(double(n2))) + kv("n0", jr(double(n0), 1));
   bool ex = !inexact;
   auto root = [&](double v, int k) { // the k-th power, rounded to an integer if it is one
      double p = std::pow(v, k);
      double q = std::round(p);
      if (std::abs(p - q) > 1e-9 * std::max(1.0, std::abs(p))) {
         ex = false;
      }
      return num((long long)q);
   };
   if constexpr (!is_cplx) {
      inexact = false;
      body += kv("n1", jr(double(t.norm<1>()), 1)) + kv("nm", jr(double(t.norm<-1>()), 1));
      ex = ex && !inexact;
   } else {
      body += kv("nm2", root(double(t.norm<-1>()), 2));
   }
   // even powers of a small tensor: sums of |x|^4
   auto small = make(g, take(g, 2), random_edges(g, 2, 2, 3, 20), 3);
   input(2, small);
   emit(head("norm") + kv("src", 1) + body + kv("exact", bools(ex)));
   ex = true;
   auto p4 = root(double(small.norm<4>()), 4);
   emit(head("norm4") + kv("src", 2) + kv("n4", p4) + kv("exact", bools(ex)));
   if constexpr (!is_cplx) {
      ex = true;
      auto p3 = root(double(small.norm<3>()), 3);
      emit(head("norm3") + kv("src", 2) + kv("n3", p3) + kv("exact", bools(ex)));
   }
}
#endif

// ---------------------------------------------------------------- C09
#ifdef FAM_EXP
static void fam_exp(Rng& g) {
   begin();
   for (int tries = 0; tries < 50; tries++) {
      int np = g.range(1, 3);
      auto ns = take(g, 2 * np);
      std::vector<Edge> es;
      Pairs pairs;
      size_t p = 0;
      int ms = np == 3 ? 2 : g.range(1, 3), md = np == 3 ? 1 : 2;
      for (int i = 0; i < np; i++) {
         auto e = random_edge(g, ms, md);
         es.push_back(e);
         es.push_back(partner(e));
         pairs.push_back({ns[p], ns[p + 1]});
         p += 2;
      }
      std::vector<size_t> o;
      for (size_t i = 0; i < es.size(); i++) {
         o.push_back(i);
      }
      g.shuffle(o);
      Names nn;
      std::vector<Edge> ee;
      for (auto i : o) {
         nn.push_back(ns[i]);
         ee.push_back(es[i]);
      }
      if (volume(ee) > 120 || volume(ee) == 0 || combos(ee) > 250) {
         continue;
      }
      g.shuffle(pairs);
      auto t = make(g, nn, ee, 1);
      int style = g.range(0, 3);
      if (style == 0) {
         t.zero();
      } else if (style == 1) { // sparse
         for (auto& [k, b] : t.core->blocks) {
            for (auto& v : b) {
               if (g.chance(75)) {
                  v = 0;
               }
            }
         }
      }
      input(1, t);
      Pairs ip = pairs;
      for (auto& q : ip) {
         if (g.chance(50)) {
            q = {std::get<1>(q), std::get<0>(q)};
         }
      }
      head("identity");
      auto s = guarded([&] { return res(t.identity(pset(ip))); });
      emit(head("identity") + kv("src", 1) + kv("pairs", jpairs(ip)) + kv("dst", 2) + kv("res", s));
      // the largest eigenvalue has to stay small for fixed point
      double sq = 0;
      for (auto& [k, b] : t.core->blocks) {
         for (auto& v : b) {
            double w = std::abs(v);
            if (sq + w * w > 20) {
               v = 0;
            } else {
               sq += w * w;
            }
         }
      }
      input(1, t);
      T r;
      head("exp");
      s = guarded([&] { return res(r = t.exponential(pset(pairs), g.range(8, 10)), 1000); });
      emit(head("exp") + kv("src", 1) + kv("pairs", jpairs(pairs)) + kv("dst", 2) + kv("res", s));
      return;
   }
}
#endif

// ---------------------------------------------------------------- C10
#ifdef FAM_SHRINK
static void fam_shrink(Rng& g) {
   begin();
   int rank = g.range(0, 5);
   auto ns = take(g, rank);
   auto es = shape(g, rank, 120);
   if (g.chance(20) && rank) {
      auto pool = sym_pool();
      es[size_t(g.range(0, rank - 1))] = make_edge(Segs{{g.pick(pool), 1}}, g.chance(50));
   }
   auto t = make(g, ns, es, 50);
   if (volume(t) == 0) {
      return;
   }
   input(1, t);
   // shrink
   std::map<Name, T::EdgePoint> cfg;
   std::string jc = "[";
   Sym tot;
   bool usenew = g.chance(is_no ? 30 : 60);
   auto it = t.core->blocks.begin();
   std::advance(it, g.range(0, int(t.core->blocks.size()) - 1));
   std::vector<Sym> key;
   for (int i = 0; i < rank; i++) {
      key.push_back(is_no ? Sym() : it->first[size_t(i)]);
   }
   for (int i = 0; i < rank; i++) {
      if (!g.chance(45) || t.core->edges[size_t(i)].map.size() == 0) {
         continue;
      }
      auto s = key[size_t(i)];
      auto d = t.core->edges[size_t(i)].map.at(s);
      if (d == 0) {
         continue;
      }
      auto x = Size(g.range(0, int(d) - 1));
      cfg[ns[size_t(i)]] = make_point(s, x);
      tot += s;
      jc += std::string(jc.size() > 1 ? "," : "") + "[" + jn(ns[size_t(i)]) + "," + j(s) + "," + num((long long)x) + "]";
   }
   jc += "]";
   bool arrow = g.chance(50);
   T r;
   head("shrink");
   auto s = guarded([&] {
      if (usenew) {
         return res(r = t.shrink(cfg, Name("New"), arrow));
      }
      return res(r = t.shrink(cfg));
   });
   emit(head("shrink") + kv("src", 1) + kv("cfg", jc) + kv("new", usenew ? "[\"New\"," + num(is_fermi ? arrow : 0) + "]" : std::string("[]")) + kv("dst", 2) +
        kv("res", s));
   // expand
   std::vector<std::pair<Name, T::EdgePointWithArrow>> ex;
   auto pool = sym_pool();
   int n = g.range(0, 3);
   auto fresh = take(g, n, "E");
   std::string old;
   for (int i = 0; i < rank; i++) {
      const auto& e = t.core->edges[size_t(i)];
      if (e.map.size() == 1 && e.map.begin()->second == 1 && g.chance(70)) {
         old = static_cast<const std::string&>(ns[size_t(i)]);
         tot = e.map.begin()->first;
      }
   }
   if (old.empty()) {
      tot = Sym();
   }
   std::map<Name, std::tuple<bool, Sym, Size, Size>> plain;
   Sym acc;
   for (int i = 0; i < n; i++) {
      Sym y = g.pick(pool);
      if (i == n - 1 && g.chance(90)) {
         y = tot + (-acc);
      }
      acc += y;
      Size d = Size(g.range(1, 3));
      plain[fresh[size_t(i)]] = {g.chance(50), y, Size(g.range(0, int(d) - 1)), d};
   }
   std::map<Name, T::EdgePointWithArrow> real;
   std::string je = "[";
   for (auto& [nm, v] : plain) {
      auto& [a, y, x, d] = v;
      real[nm] = make_expand(a, y, x, d);
      je += std::string(je.size() > 1 ? "," : "") + "[" + jn(nm) + "," + num(is_fermi && a ? 1 : 0) + "," + j(y) + "," + num((long long)x) + "," +
            num((long long)d) + "]";
   }
   je += "]";
   head("expand");
   s = guarded([&] {
      if (!old.empty()) {
         return res(r = t.expand(real, Name(old)));
      }
      return res(r = t.expand(real));
   });
   emit(head("expand") + kv("src", 1) + kv("cfg", je) + kv("old", old.empty() ? std::string("[]") : "[" + quote(old) + "]") + kv("dst", 2) + kv("res", s));
}
#endif

// ---------------------------------------------------------------- C11
#ifdef FAM_ARITH
// positive scalar of another type, exactly representable
static void fam_arith(Rng& g) {
   begin();
   zero_dims = g.chance(10) ? 12 : 0;
   int rank = g.range(0, 4);
   auto ns = take(g, rank);
   auto es = shape(g, rank, 120);
   auto t = make(g, ns, es, 50);
   // second operand: same names in another order, segments may differ
   std::vector<size_t> o;
   for (size_t i = 0; i < es.size(); i++) {
      o.push_back(i);
   }
   if (g.chance(60)) {
      g.shuffle(o);
   }
   Names nn;
   std::vector<Edge> ee;
   bool partial = !is_no && g.chance(40);
   for (auto i : o) {
      nn.push_back(ns[i]);
      auto e = es[i];
      if (partial) {
         auto m = segs_of(e);
         for (auto& [s, d] : random_segs(g, 2, 2)) {
            m.insert({s, d});
         }
         if (m.size() > 1 && g.chance(50)) {
            m.erase(m.begin());
         }
         e = make_edge(m, arrow_of(e));
      }
      ee.push_back(e);
   }
   if (volume(ee) > 200 || combos(ee) > 200) {
      ee.clear();
      for (auto i : o) {
         ee.push_back(es[i]);
      }
      partial = false;
   }
   auto u = make(g, nn, ee, 50);
   int op = g.range(0, 3);
   bool outplace = g.chance(60);
   const char* sym = op == 0 ? "add" : op == 1 ? "sub" : op == 2 ? "mul" : "div";
   bool number = g.chance(45);
   auto divisible = [&](T& num_, int m) { // multiples of 60 so that the quotients are integers
      for (auto& [k, b] : num_.core->blocks) {
         for (auto& v : b) {
            v = random_value(g, 9) * Real(m);
         }
      }
   };
   auto divisor = [&](T& d) {
      const int q[] = {1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -5, -6};
      for (auto& [k, b] : d.core->blocks) {
         for (auto& v : b) {
            v = Real(q[g.range(0, 11)]);
         }
      }
   };
   T r;
   std::string s;
   if (!number) {
      if (op == 3) {
         if (partial) {
            return;
         }
         divisible(t, 60);
         divisor(u);
      }
      input(1, t);
      input(2, u);
      bool self = g.chance(10) && op != 3;
      const T& w = self ? t : u;
      head(outplace ? "binary" : "inplace");
      if (outplace) {
         s = guarded([&] {
            r = op == 0 ? t + w : op == 1 ? t - w : op == 2 ? t * w : t / w;
            return res(r);
         });
         emit(head("binary") + kv("f", quote(sym)) + kv("a", 1) + kv("b", self ? 1 : 2) + kv("dst", 3) + kv("res", s));
      } else {
         r = t;
         T keep;
         bool shared = g.chance(50);
         if (shared) {
            keep = r;
         } else {
            r = t.copy();
         }
         s = guarded([&] {
            const T& w2 = self ? r : u;
            T& q = op == 0 ? (r += w2) : op == 1 ? (r -= w2) : op == 2 ? (r *= w2) : (r /= w2);
            return &q == &r ? res(r) : std::string("{\"ok\":3}");
         });
         emit(head("inplace") + kv("f", quote(sym)) + kv("a", 1) + kv("b", self ? 1 : 2) + kv("dst", 3) + kv("res", s));
      }
   } else {
      Scalar c;
      bool right = true;
      if (op == 3) {
         right = !outplace || g.chance(60);
         if (right) {
            divisible(t, 60);
            const int q[] = {1, 2, 3, 4, 5, 6, -2, -3};
            c = Real(q[g.range(0, 7)]);
         } else {
            divisor(t);
            c = random_value(g, 9) * Real(60);
         }
      } else {
         c = random_value(g, 20);
         right = !outplace || g.chance(60);
      }
      input(1, t);
      head(outplace ? "scalarop" : "scalarinplace");
      if (outplace) {
         s = guarded([&] {
            if (right) {
               r = op == 0 ? t + c : op == 1 ? t - c : op == 2 ? t * c : t / c;
            } else {
               r = op == 0 ? c + t : op == 1 ? c - t : op == 2 ? c * t : c / t;
            }
            return res(r);
         });
      } else {
         r = g.chance(50) ? t.copy() : t;
         s = guarded([&] {
            op == 0 ? r += c : op == 1 ? r -= c : op == 2 ? r *= c : r /= c;
            return res(r);
         });
      }
      emit(head("scalarop") + kv("f", quote(sym)) + kv("a", 1) + kv("c", jv(c)) + kv("right", right ? 1 : 0) + kv("dst", 3) + kv("res", s));
   }
   // scalar type conversion (small integers are exact in every type)
   auto v = make(g, ns, es, 50);
   input(4, v);
   head("to");
   int way = g.range(0, 3);
   s = guarded([&]() -> std::string {
      if constexpr (is_cplx) {
         switch (way) {
            case 0:
               return res(v.to<std::complex<float>>());
            case 1:
               return res(v.to<Scalar>());
            case 2:
               return res(v.to<std::complex<float>>().to<Scalar>());
            default:
               return res(v.to<double>().to<Scalar>());
         }
      } else {
         switch (way) {
            case 0:
               return res(v.to<float>());
            case 1:
               return res(v.to<double>());
            case 2:
               return res(v.to<std::complex<double>>().to<double>());
            default:
               return res(v.to<std::complex<float>>().to<float>());
         }
      }
   });
   // complex -> real -> complex keeps the real part
   emit(head("to") + kv("src", 4) + kv("real", is_cplx && way == 3 ? 1 : 0) + kv("dst", 5) + kv("res", s));
   // scalar types of the operands may differ
   head("mixed");
   s = guarded([&]() -> std::string {
      auto x = v.to<std::complex<double>>();
      auto y = v.to<double>();
      auto z = op == 0 ? x + y : op == 1 ? x - y : x * y;
      return res(z.to<Scalar>());
   });
   emit(head("mixed") + kv("src", 4) + kv("f", quote(op == 0 ? "add" : op == 1 ? "sub" : "mul")) + kv("res", s));
   // map / transform
   head("map");
   s = guarded([&] {
      if (g.chance(50)) {
         return res(v.map([](Scalar x) { return x * Real(3) + Real(1); }));
      }
      auto w = v;
      w.transform([](Scalar x) { return x * Real(3) + Real(1); });
      return res(w);
   });
   emit(head("map") + kv("src", 4) + kv("dst", 5) + kv("res", s));
}
#endif

// ---------------------------------------------------------------- C07
#if defined(FAM_SVD)
static std::string jsing(const T::SingularType& s, double scale) {
   inexact = false;
   std::string r = "[";
   bool first = true;
#ifdef TAT_USE_SINGULAR_MATRIX
   for (const auto& [k, b] : s.core->blocks) {
      auto n = size_t(std::lround(std::sqrt(double(b.size()))));
      std::vector<double> d;
      for (size_t i = 0; i < n; i++) {
         d.push_back(double(std::real(b[i * n + i])));
         for (size_t m = 0; m < n; m++) {
            if (m != i && b[i * n + m] != Scalar(0)) {
               inexact = true;
            }
         }
      }
      std::string key = is_no ? "[]" : j(k[1]);
#else
   for (const auto& [k, d] : s.value) {
      std::string key = is_no ? "[]" : j(k);
#endif
      r += std::string(first ? "" : ",") + "[" + key + "," + list(d, [&](double v) { return jr(v, scale); }) + "]";
      first = false;
   }
   return r + "]";
}
static void fam_svd(Rng& g) {
   begin();
   int rank = g.range(0, 5);
   auto ns = take(g, rank);
   auto es = shape(g, rank, 60);
   if (g.chance(20)) {
      es = random_edges(g, rank, 1, 4, 60);
   }
   auto t = make(g, ns, es, 3);
   int style = g.range(0, 5);
   if (style == 0) {
      t.zero();
   } else if (style == 1) { // low rank
      for (auto& [k, b] : t.core->blocks) {
         for (auto& v : b) {
            v = Real(1);
         }
      }
   }
   if (volume(t) == 0) {
      return;
   }
   input(1, t);
   auto fu = subset(g, ns, 50);
   if (g.chance(40)) { // keep a prefix or suffix together
      fu = ns;
      fu.resize(size_t(g.range(0, rank)));
   }
   auto fs = toset(fu);
   const double scale = 2000;
   auto run = [&](Size cut) {
      return guarded([&] {
         auto r = t.svd(fs, Name("CU"), Name("CV"), cut);
         auto sv = jsing(r.S, scale);
         bool ex = !inexact;
         return "{\"ok\":1,\"U\":" + res(r.U, scale) + ",\"V\":" + res(r.V, scale) + ",\"S\":" + sv + ",\"exact\":" + bools(ex) + "}";
      });
   };
   head("svd");
   auto full = run(Size(-1));
   emit(head("svd") + kv("src", 1) + kv("free", jnames(fs)) + kv("cut", -1) + kv("res", full) + kv("full", full));
   head("svd");
   int cut = g.range(1, 6);
   auto c = run(Size(cut));
   emit(head("svd") + kv("src", 1) + kv("free", jnames(fs)) + kv("cut", cut) + kv("res", c) + kv("full", full));
   // multiplication with integer singular values
   if (g.chance(50)) { // on a tensor with longer edges: the kernel is specialised by the size behind the multiplied edge
      rank = g.range(1, 3);
      ns = take(g, rank);
      t = make(g, ns, random_edges(g, rank, 2, 20, 150), 3);
      if (volume(t) == 0) {
         return;
      }
      input(1, t);
   }
   if (rank == 0) {
      return;
   }
   auto at = size_t(g.range(0, rank - 1));
   auto dir = g.chance(50) ? 'u' : 'v';
   if (g.chance(30)) {
      dir = char(dir - 32);
   }
   bool isv = dir == 'v' || dir == 'V';
   bool division = g.chance(40);
   std::map<Sym, std::vector<int>> sv;
   for (const auto& [s, d] : t.core->edges[at].map) {
      auto& v = sv[isv ? -s : s];
      for (Size i = 0; i < d; i++) {
         v.push_back(division ? 1 << g.range(0, 3) : g.range(-9, 9));
      }
   }
   T::SingularType S;
#ifdef TAT_USE_SINGULAR_MATRIX
   {
      Segs m1, m2;
      for (auto& [s, v] : sv) {
         m1[-s] = v.size();
         m2[s] = v.size();
      }
      S = T({Name("SU"), Name("SV")}, {make_edge(m1, false), make_edge(m2, true)}).zero();
      for (auto& [k, b] : S.core->blocks) {
         auto& v = sv[is_no ? Sym() : k[1]];
         for (size_t i = 0; i < v.size(); i++) {
            b[i * v.size() + i] = Real(v[i]);
         }
      }
   }
#else
   for (auto& [s, v] : sv) {
      S.value[s] = std::vector<Real>(v.begin(), v.end());
   }
#endif
   if (division) {
      for (auto& [k, b] : t.core->blocks) {
         for (auto& v : b) {
            v *= Real(8);
         }
      }
      input(1, t);
   }
   head("multiple");
   auto q = guarded([&] { return res(t.multiple(S, ns[at], dir, division)); });
   emit(head("multiple") + kv("src", 1) + kv("name", jn(ns[at])) + kv("isv", isv ? 1 : 0) + kv("division", division ? 1 : 0) +
        kv("S", list(sv, [](const auto& p) { return "[" + (is_no ? std::string("[]") : j(p.first)) + "," + list(p.second, [](int x) { return num(x); }) + "]"; })) +
        kv("dst", 2) + kv("res", q));
}
#endif

// ---------------------------------------------------------------- C08
#ifdef FAM_QR
static void fam_qr(Rng& g) {
   begin();
   int rank = g.range(0, 5);
   auto ns = take(g, rank);
   auto es = shape(g, rank, 60);
   if (g.chance(20)) {
      es = random_edges(g, rank, 1, 4, 60);
   }
   auto t = make(g, ns, es, 3);
   if (g.chance(15)) {
      t.zero();
   }
   if (volume(t) == 0) {
      return;
   }
   input(1, t);
   auto fu = subset(g, ns, 50);
   if (g.chance(40)) {
      fu = ns;
      fu.resize(size_t(g.range(0, rank)));
   }
   auto fs = toset(fu);
   const char ds[] = {'q', 'Q', 'r', 'R'};
   char d = ds[g.range(0, 3)];
   const double scale = 2000;
   head("qr");
   auto s = guarded([&] {
      auto r = t.qr(d, fs, Name("CQ"), Name("CR"));
      return "{\"ok\":1,\"Q\":" + res(r.Q, scale) + ",\"R\":" + res(r.R, scale) + "}";
   });
   emit(head("qr") + kv("src", 1) + kv("free", jnames(fs)) + kv("side", quote(d == 'q' || d == 'Q' ? "Q" : "R")) + kv("res", s));
}
#endif

#ifdef FAM_COW
#include "cow_family.hpp"
#endif
#ifdef FAM_REJECT
#include "reject_family.hpp"
#endif
#ifdef FAM_IO
#include "io_family.hpp"
#endif

int main(int argc, char** argv) {
   if (argc < 5) {
      return 2;
   }
   std::string fam = argv[1];
   uint64_t seed = strtoull(argv[2], nullptr, 10);
   int count = atoi(argv[3]);
   int start = argc > 5 ? atoi(argv[5]) : 0;
   install(argv[4], 30);
   emit(head("meta") + kv("kind", quote(kind_name())) + kv("cplx", bools(is_cplx)));
   for (int i = start; i < count; i++) {
      alarm(30);
      case_index = i;
      Rng g(seed * 1000003u + uint64_t(i));
      try {
#define RUN(F, f)       \
   if (fam == #f) {     \
      fam_##f(g);       \
   }
#ifdef FAM_BUILD
         RUN(FAM_BUILD, build)
#endif
#ifdef FAM_EDGE
         RUN(FAM_EDGE, edge)
         RUN(FAM_EDGE, bigedge)
#endif
#ifdef FAM_MERGE
         RUN(FAM_MERGE, merge)
#endif
#ifdef FAM_CONTRACT
         RUN(FAM_CONTRACT, contract)
#endif
#ifdef FAM_TRACE
         RUN(FAM_TRACE, trace)
#endif
#ifdef FAM_CONJ
         RUN(FAM_CONJ, conj)
#endif
#ifdef FAM_EXP
         RUN(FAM_EXP, exp)
#endif
#ifdef FAM_SHRINK
         RUN(FAM_SHRINK, shrink)
#endif
#ifdef FAM_ARITH
         RUN(FAM_ARITH, arith)
#endif
#ifdef FAM_SVD
         RUN(FAM_SVD, svd)
#endif
#ifdef FAM_QR
         RUN(FAM_QR, qr)
#endif
#ifdef FAM_COW
         RUN(FAM_COW, cow)
#endif
#ifdef FAM_REJECT
         RUN(FAM_REJECT, reject)
#endif
#ifdef FAM_IO
         RUN(FAM_IO, bin)
         RUN(FAM_IO, text)
#endif
      } catch (const std::exception& e) {
         // an unexpected exception outside the guarded operation
         write_all(std::string("{\"op\":\"crash\",\"in\":") + quote(current_op) + ",\"sig\":0}\n");
      }
   }
   write_all("{\"op\":\"end\"}\n");
   return 0;
}
