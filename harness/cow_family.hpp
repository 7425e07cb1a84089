// C12: several tensors that share storage; after every step the whole visible
// state of every tensor is logged.
#include <memory>
#include <sstream>
static void fam_cow(Rng& g) {
   begin();
   constexpr int N = 5;
   std::array<std::unique_ptr<T>, N> reg; // 1..N in the log
   auto all = [&] {
      std::string r = "[";
      for (int i = 0; i < N; i++) {
         const T* t = reg[size_t(i)].get();
         r += (i ? "," : "") + (t ? res(*t) : std::string("{\"ok\":2}"));
      }
      return r + "]";
   };
   int rank = g.range(0, 3);
   auto ns = take(g, rank);
   auto es = random_edges(g, rank, 2, 2, 24);
   auto es2 = random_edges(g, rank, 2, 2, 24);
   auto fresh = [&](int i, bool second) {
      reg[size_t(i)] = std::make_unique<T>(make(g, ns, second ? es2 : es, 5));
   };
   for (int i = 0; i < N; i++) {
      if (g.chance(i == 0 ? 100 : 35)) {
         fresh(i, g.chance(20));
      }
   }
   emit(head("cowstart") + kv("all", all()));
   int steps = g.range(6, 14);
   for (int n = 0; n < steps; n++) {
      std::vector<int> live;
      for (int i = 0; i < N; i++) {
         if (reg[size_t(i)] && reg[size_t(i)]->core) {
            live.push_back(i);
         }
      }
      if (live.empty()) {
         fresh(0, false);
         emit(head("cowfresh") + kv("dst", 1) + kv("all", all()));
         continue;
      }
      int s = g.pick(live), d = g.range(0, N - 1), q = g.pick(live);
      auto S = [&]() -> T& { return *reg[size_t(s)]; };
      auto put = [&](T&& t) { // the old object at d is assigned to, or a new one is made
         if (reg[size_t(d)] && g.chance(50)) {
            *reg[size_t(d)] = std::move(t);
         } else {
            reg[size_t(d)] = std::make_unique<T>(std::move(t));
         }
      };
      auto log = [&](const char* op, const std::string& args, bool ok) {
         emit(head(op) + args + kv("ok", ok ? 1 : 0) + kv("all", all()));
      };
      auto attempt = [&](const char* op, auto&& f) {
         head(op);
         try {
            f();
            return true;
         } catch (const std::exception&) {
            return false;
         }
      };
      bool small = magnitude(S()) < 20000;
      auto src = kv("src", s + 1), dst = kv("dst", d + 1), self = kv("dst", s + 1);
      int what = g.range(0, 23);
      switch (what) {
         case 0: {
            auto ok = attempt("cowcopy", [&] { reg[size_t(d)] = std::make_unique<T>(S()); });
            log("cowcopy", src + dst, ok);
            break;
         }
         case 1: {
            if (!reg[size_t(d)]) {
               reg[size_t(d)] = std::make_unique<T>();
            }
            auto ok = attempt("cowcopy", [&] { *reg[size_t(d)] = S(); });
            log("cowcopy", src + dst, ok);
            break;
         }
         case 2: {
            auto ok = attempt("cowcopy", [&] { put(S().copy()); });
            log("cowcopy", src + dst, ok);
            break;
         }
         case 3: {
            auto ok = attempt("cowcopy", [&] { put(S().template to<Scalar>()); });
            log("cowcopy", src + dst, ok);
            break;
         }
         case 4: {
            auto nn = S().names;
            auto ok = attempt("cowcopy", [&] { put(S().transpose(nn)); });
            log("cowcopy", src + dst, ok);
            break;
         }
         case 5: {
            auto ok = attempt("cowcopy", [&] {
               std::stringstream st;
               st < S();
               if (!reg[size_t(d)]) {
                  reg[size_t(d)] = std::make_unique<T>();
               }
               st > *reg[size_t(d)];
            });
            log("cowcopy", src + dst, ok);
            break;
         }
         case 6:
         case 7: { // a renamed tensor
            std::map<Name, Name> ren;
            std::string jren;
            Names nn = S().names;
            if (!nn.empty()) {
               auto x = g.pick(nn);
               auto y = Name(std::string("M") + std::to_string(g.range(0, 3)));
               if (S().name_to_index.count(y) == 0) {
                  ren[x] = y;
                  jren = "[" + jn(x) + "," + jn(y) + "]";
               }
            }
            auto ok = attempt("cowrename", [&] { put(S().edge_rename(ren)); });
            log("cowrename", src + dst + kv("ren", "[" + jren + "]"), ok);
            break;
         }
         case 8: {
            // moving away: only the target is specified
            auto ok = attempt("cowmove", [&] {
               if (s != d) {
                  reg[size_t(d)] = std::make_unique<T>(std::move(S()));
                  reg[size_t(s)].reset();
               }
            });
            log("cowmove", src + dst, ok);
            break;
         }
         case 9: {
            auto ok = attempt("cowdrop", [&] { reg[size_t(s)].reset(); });
            log("cowdrop", self, ok);
            break;
         }
         case 10:
         case 11:
         case 12: { // write of an element or a block
            auto& c = static_cast<const T&>(S()).core->blocks;
            if (c.begin() == c.end()) {
               break;
            }
            auto it = c.begin();
            std::advance(it, g.range(0, int(c.size()) - 1));
            if (it->second.empty()) {
               break;
            }
            std::map<Name, T::EdgePoint> pos;
            std::map<Name, Sym> key;
            std::string jp, jk;
            for (size_t i = 0; i < S().names.size(); i++) {
               auto q0 = is_no ? Sym() : it->first[i];
               auto dd = static_cast<const T&>(S()).core->edges[i].map.at(q0);
               auto p = make_point(q0, Size(g.range(0, int(dd) - 1)));
               pos.insert({S().names[i], p});
               key.insert({S().names[i], q0});
               jp += std::string(i ? "," : "") + "[" + jn(S().names[i]) + "," + jpoint(p) + "]";
               jk += std::string(i ? "," : "") + "[" + jn(S().names[i]) + "," + j(q0) + "]";
            }
            auto v = random_value(g, 99);
            if (what == 12) {
               auto ok = attempt("cowsetblock", [&] {
                  auto x = v;
                  for (auto& e : S().block(key)) {
                     e = x;
                     x += Scalar(1);
                  }
               });
               log("cowsetblock", self + kv("key", "[" + jk + "]") + kv("val", jv(v)), ok);
            } else {
               auto ok = attempt("cowsetat", [&] { S().at(pos) = v; });
               log("cowsetat", self + kv("pos", "[" + jp + "]") + kv("val", jv(v)), ok);
            }
            break;
         }
         case 13: {
            auto ok = attempt("cowfill", [&] { S().zero(); });
            log("cowfill", self + kv("src", s + 1) + kv("first", jv(Scalar(0))) + kv("step", jv(Scalar(0))), ok);
            break;
         }
         case 14: {
            auto f = random_value(g, 9), st = random_value(g, 3);
            auto ok = attempt("cowfill", [&] { S().test(f, st); });
            log("cowfill", self + kv("src", s + 1) + kv("first", jv(f)) + kv("step", jv(st)), ok);
            break;
         }
         case 15: {
            auto c = random_value(g, 9);
            auto ok = attempt("cowadd", [&] { S().transform([&](const auto& x) { return x + c; }); });
            log("cowadd", self + kv("src", s + 1) + kv("c", jv(c)), ok);
            break;
         }
         case 16: { // in place with a number
            auto c = random_value(g, 3);
            if (g.chance(50)) {
               auto ok = attempt("cowadd", [&] { S() += c; });
               log("cowadd", self + kv("src", s + 1) + kv("c", jv(c)), ok);
            } else if (small) {
               auto ok = attempt("cowmul", [&] { S() *= c; });
               log("cowmul", self + kv("src", s + 1) + kv("c", jv(c)), ok);
            }
            break;
         }
         case 17:
         case 18: { // in place with a tensor, perhaps itself or one that shares its storage
            if (!small || magnitude(*reg[size_t(q)]) > 20000) {
               break;
            }
            const char* f = g.chance(50) ? "add" : "sub";
            auto ok = attempt("cowinplace", [&] {
               if (*f == 'a') {
                  S() += *reg[size_t(q)];
               } else {
                  S() -= *reg[size_t(q)];
               }
            });
            log("cowinplace", self + kv("a", s + 1) + kv("b", q + 1) + kv("f", quote(f)), ok);
            break;
         }
         case 19: { // a temporary copy is filled
            auto f = random_value(g, 9), st = random_value(g, 3);
            auto ok = attempt("cowfill", [&] { put(T(S()).test(f, st)); });
            log("cowfill", src + dst + kv("first", jv(f)) + kv("step", jv(st)), ok);
            break;
         }
         case 20: {
            auto c = random_value(g, 9);
            auto ok = attempt("cowadd", [&] { put(T(S()).transform([&](const auto& x) { return x + c; })); });
            log("cowadd", src + dst + kv("c", jv(c)), ok);
            break;
         }
         case 21: { // operations that are not in place: the operands stay, the result is not judged here
            int k = g.range(0, 6);
            auto nn = S().names;
            g.shuffle(nn);
            auto ok = attempt("cowother", [&] {
               if (k == 0) {
                  put(S().conjugate());
               } else if (k == 1) {
                  put(S().transpose(nn));
               } else if (k == 2) {
                  put(S() + *reg[size_t(q)]);
               } else if (k == 3) {
                  put(S().map([](const auto& x) { return x + Scalar(1); }));
               } else if (k == 4) {
                  put(S().merge_edge(std::map<Name, Names>{{Name("Z"), subset(g, nn, 50)}}));
               } else if (k == 5) {
                  put(S().same_shape().zero());
               } else {
                  put(Real(-1) * S());
               }
            });
            log("cowother", src + dst, ok);
            break;
         }
         case 22: { // pure reads
            auto ok = attempt("cowread", [&] {
               const T& c = S();
               volatile double x = double(c.template norm<2>());
               x = x + double(c.template norm<-1>());
               std::stringstream st;
               st < c;
               auto e = c.core->blocks.begin();
               if (S().names.empty()) {
                  (void)(Scalar(c));
                  (void)c.at({});
                  (void)c.const_at({});
               }
               (void)c.show();
            });
            log("cowread", "", ok);
            break;
         }
         default: { // a failing in-place operation changes nothing
            std::vector<Edge> e3{es.begin(), es.end()};
            e3.push_back(random_edge(g, 1, 2));
            Names n3 = take(g, int(e3.size()), "Q");
            auto other = make(g, n3, e3, 3);
            auto ok = attempt("cowreject", [&] { S() += other; });
            log("cowreject", "", ok);
            break;
         }
      }
   }
}
