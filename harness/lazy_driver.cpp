// C16: random histories of the lazy graph library.
//   lazy_driver FAMILY SEED COUNT LOGFILE [START]
#include <lazy.hpp>

#include <memory>
#include <optional>
#include <variant>

#include "common.hpp"
using namespace h;
static std::string head(const char* op) {
   op_begin(op);
   return std::string("{\"op\":\"") + op + "\"";
}
static void emit(const std::string& s) {
   write_all(s + "}\n");
}
static std::string kv(const char* k, const std::string& v) {
   return std::string(",\"") + k + "\":" + v;
}
static std::string kv(const char* k, long v) {
   return std::string(",\"") + k + "\":" + num(v);
}
// values are strings holding a number: a value used after it was moved from or
// freed is not that number any more
struct Val {
   std::string s;
   Val() = default;
   explicit Val(long v) : s(std::string(20, '0') + std::to_string(v)) {}
   long get() const {
      return s.size() > 20 ? atol(s.c_str() + 20) : -2;
   }
};
using R = std::shared_ptr<lazy::root<Val>>;
using N = std::shared_ptr<lazy::node<Val>>;
using P = std::shared_ptr<lazy::path<Val>>;
using H = std::variant<std::monostate, R, N, P>;
static std::vector<int> evals;
static Val combine(long fn, const std::vector<long>& xs) {
   long r = fn;
   for (size_t i = 0; i < xs.size(); i++) {
      r += long(2 * i + 3) * xs[i];
   }
   return Val(r % 1009);
}
template<typename... A>
static H build(bool path, int id, long fn, A&... args) {
   auto f = [id, fn](const auto&... x) -> Val {
      evals.push_back(id);
      return combine(fn, std::vector<long>{x.get()...});
   };
   if (path) {
      return lazy::Path(f, args...);
   }
   return lazy::Node(f, args...);
}
static H make(bool path, int id, long fn, const std::vector<H>& a) {
   if (a.size() == 0) {
      return build(path, id, fn);
   }
   return std::visit(
         [&](auto x) -> H {
            if constexpr (std::is_same_v<decltype(x), std::monostate>) {
               return {};
            } else {
               if (a.size() == 1) {
                  return build(path, id, fn, x);
               }
               return std::visit(
                     [&](auto y) -> H {
                        if constexpr (std::is_same_v<decltype(y), std::monostate>) {
                           return {};
                        } else {
                           if (a.size() == 2) {
                              return build(path, id, fn, x, y);
                           }
                           return std::visit(
                                 [&](auto z) -> H {
                                    if constexpr (std::is_same_v<decltype(z), std::monostate>) {
                                       return {};
                                    } else {
                                       return build(path, id, fn, x, y, z);
                                    }
                                 },
                                 a[2]);
                        }
                     },
                     a[1]);
            }
         },
         a[0]);
}
struct Info {
   std::string kind;
   std::vector<int> args;
   int graph;
   bool set = false; // roots
};
static void run(Rng& g) {
   std::vector<Info> info;
   std::vector<H> handle;
   std::vector<lazy::Graph> graphs(2);
   std::vector<std::pair<int, lazy::Snapshot>> snaps;
   std::vector<std::vector<bool>> snapset;
   auto live = [&](auto pred) {
      std::vector<int> r;
      for (size_t i = 0; i < info.size(); i++) {
         if (handle[i].index() != 0 && pred(int(i))) {
            r.push_back(int(i));
         }
      }
      return r;
   };
   std::function<bool(int)> ready = [&](int i) {
      if (info[size_t(i)].kind == "root") {
         return bool(info[size_t(i)].set);
      }
      for (auto a : info[size_t(i)].args) {
         if (!ready(a)) {
            return false;
         }
      }
      return true;
   };
   int steps = g.range(15, 45);
   int graph_count = g.chance(70) ? 1 : 2;
   size_t limit = size_t(g.range(4, 11));
   bool snapped = false;
   for (int n = 0; n < steps; n++) {
      int what = g.range(0, 99);
      if (info.size() < 2 || (what < 25 && info.size() < limit && !snapped)) {
         int gr = g.range(0, graph_count - 1);
         lazy::use_graph(graphs[size_t(gr)]);
         int id = int(info.size());
         auto mine = live([&](int i) { return info[size_t(i)].graph == gr; });
         Info in;
         in.graph = gr;
         long fn = g.range(0, 1000), v = -1;
         std::string j;
         H made;
         if (mine.empty() || g.chance(25)) {
            in.kind = "root";
            head("make");
            int how = g.range(0, 2);
            if (how == 0) {
               made = lazy::Root<Val>();
            } else {
               v = g.range(0, 1000);
               in.set = true;
               if (how == 1) {
                  made = lazy::Root(Val(v));
               } else {
                  const Val c(v);
                  made = lazy::Root(c);
               }
            }
         } else {
            bool path = g.chance(20);
            in.kind = path ? "path" : "node";
            int k = g.chance(5) ? 0 : g.range(1, 3);
            std::vector<H> a;
            for (int q = 0; q < k; q++) {
               // recent ones more often, so that graphs get deep
               int x = g.chance(50) ? mine.back() : g.pick(mine);
               in.args.push_back(x);
               a.push_back(handle[size_t(x)]);
            }
            head("make");
            made = make(path, id + 1, fn, a);
         }
         info.push_back(in);
         handle.push_back(made);
         emit(head("make") + kv("kind", quote(in.kind)) + kv("args", list(in.args, [](int x) { return num(x + 1); })) + kv("fn", fn) +
              kv("graph", gr + 1) + kv("val", v));
      } else if (what < 50) {
         auto rs = live([&](int i) { return info[size_t(i)].kind == "root"; });
         if (rs.empty()) {
            continue;
         }
         int i = g.pick(rs);
         auto& r = std::get<R>(handle[size_t(i)]);
         head("set");
         long v = -1;
         if (g.chance(12)) {
            r->unset();
            info[size_t(i)].set = false;
         } else {
            v = g.range(0, 1000);
            if (g.chance(50)) {
               const Val c(v);
               r->set(c);
            } else {
               r->set(Val(v));
            }
            info[size_t(i)].set = true;
         }
         emit(head("set") + kv("id", i + 1) + kv("val", v));
      } else if (what < 82) {
         auto rs = live(ready);
         if (rs.empty()) {
            continue;
         }
         int i = g.pick(rs);
         head("get");
         evals.clear();
         long v = std::visit(
               [](auto& x) -> long {
                  if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) {
                     return -3;
                  } else {
                     return x->get().get();
                  }
               },
               handle[size_t(i)]);
         std::vector<int> ns;
         for (auto e : evals) {
            if (info[size_t(e - 1)].kind == "node") {
               ns.push_back(e);
            }
         }
         emit(head("get") + kv("id", i + 1) + kv("res", v) + kv("evals", list(ns, [](int x) { return num(x); })));
      } else if (what < 88) {
         auto rs = live([](int) { return true; });
         if (rs.size() > 2) {
            int i = g.pick(rs);
            head("drop");
            handle[size_t(i)] = {};
            emit(head("drop") + kv("id", i + 1));
         }
      } else if (what < 94) {
         int gr = g.range(0, graph_count - 1);
         head("dump");
         snaps.emplace_back(gr, graphs[size_t(gr)].dump());
         std::vector<bool> st;
         for (auto& x : info) {
            st.push_back(x.set);
         }
         snapset.push_back(st);
         snapped = true; // nodes made after a snapshot are not part of it
         emit(head("dump") + kv("graph", gr + 1));
      } else if (!snaps.empty()) {
         auto k = size_t(g.range(0, int(snaps.size()) - 1));
         head("load");
         graphs[size_t(snaps[k].first)].load(snaps[k].second);
         for (size_t i = 0; i < snapset[k].size(); i++) {
            if (info[i].graph == snaps[k].first) {
               info[i].set = snapset[k][i];
            }
         }
         emit(head("load") + kv("snap", long(k + 1)));
      }
   }
   lazy::use_graph();
}
// one history made by LazyScripts.tla: "r V", "n -1 A B", "p -1 A", "s I V",
// "g I", "d", "l K", separated by ';'; afterwards everything is read
static void replay(const std::string& script) {
   std::vector<H> handle;
   std::vector<std::string> kinds;
   std::vector<bool> set;
   std::vector<std::vector<int>> args;
   lazy::Graph graph;
   std::vector<lazy::Snapshot> snaps;
   std::vector<std::vector<bool>> snapset;
   lazy::use_graph(graph);
   auto get = [&](int i) {
      head("get");
      evals.clear();
      long v = std::visit(
            [](auto& x) -> long {
               if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) {
                  return -3;
               } else {
                  return x->get().get();
               }
            },
            handle[size_t(i - 1)]);
      std::vector<int> ns;
      for (auto e : evals) {
         if (kinds[size_t(e - 1)] == "node") {
            ns.push_back(e);
         }
      }
      emit(head("get") + kv("id", i) + kv("res", v) + kv("evals", list(ns, [](int x) { return num(x); })));
   };
   std::function<bool(int)> ready = [&](int i) {
      if (kinds[size_t(i - 1)] == "root") {
         return bool(set[size_t(i - 1)]);
      }
      for (auto a : args[size_t(i - 1)]) {
         if (!ready(a)) {
            return false;
         }
      }
      return true;
   };
   std::stringstream all(script);
   std::string one;
   while (std::getline(all, one, ';')) {
      std::stringstream in(one);
      std::string what;
      in >> what;
      if (what == "r" || what == "n" || what == "p") {
         long v;
         in >> v;
         std::vector<int> as;
         std::vector<H> hs;
         int a;
         while (in >> a) {
            as.push_back(a);
            hs.push_back(handle[size_t(a - 1)]);
         }
         int id = int(handle.size()) + 1;
         long fn = (id - 1) * 7 + 1;
         head("make");
         if (what == "r") {
            handle.push_back(v < 0 ? H(lazy::Root<Val>()) : H(lazy::Root(Val(v))));
         } else {
            handle.push_back(make(what == "p", id, fn, hs));
         }
         kinds.push_back(what == "r" ? "root" : what == "n" ? "node" : "path");
         set.push_back(v >= 0);
         args.push_back(as);
         emit(head("make") + kv("kind", quote(kinds.back())) + kv("args", list(as, [](int x) { return num(x); })) + kv("fn", fn) + kv("graph", 1) +
              kv("val", v));
      } else if (what == "s") {
         int i;
         long v;
         in >> i >> v;
         auto& r = std::get<R>(handle[size_t(i - 1)]);
         head("set");
         if (v < 0) {
            r->unset();
         } else {
            r->set(Val(v));
         }
         set[size_t(i - 1)] = v >= 0;
         emit(head("set") + kv("id", i) + kv("val", v));
      } else if (what == "g") {
         int i;
         in >> i;
         get(i);
      } else if (what == "d") {
         head("dump");
         snaps.push_back(graph.dump());
         snapset.push_back(set);
         emit(head("dump") + kv("graph", 1));
      } else if (what == "l") {
         int k;
         in >> k;
         head("load");
         graph.load(snaps[size_t(k - 1)]);
         set = snapset[size_t(k - 1)];
         emit(head("load") + kv("snap", k));
      }
   }
   for (int i = int(handle.size()); i > 0; i--) {
      if (ready(i)) {
         get(i);
      }
   }
   lazy::use_graph();
}
int main(int argc, char** argv) {
   if (argc < 5) {
      return 2;
   }
   uint64_t seed = strtoull(argv[2], nullptr, 10);
   int count = atoi(argv[3]);
   int start = argc > 5 ? atoi(argv[5]) : 0;
   install(argv[4], 30);
   emit(head("meta"));
   if (std::string(argv[1]).substr(0, 7) == "script:") {
      FILE* f = fopen(argv[1] + 7, "r");
      char line[4096];
      for (int i = 0; f && fgets(line, sizeof line, f); i++) {
         if (i >= start) {
            alarm(30);
            write_all("{\"op\":\"begin\",\"i\":" + num(i) + "}\n");
            replay(std::string(line, strcspn(line, "\n")));
         }
      }
      write_all("{\"op\":\"end\"}\n");
      return 0;
   }
   for (int i = start; i < count; i++) {
      alarm(30);
      Rng g(seed * 1000003u + uint64_t(i));
      write_all("{\"op\":\"begin\",\"i\":" + num(i) + "}\n");
      try {
         run(g);
      } catch (const std::exception& e) {
         write_all(std::string("{\"op\":\"crash\",\"in\":") + quote(current_op) + ",\"sig\":0}\n");
      }
   }
   write_all("{\"op\":\"end\"}\n");
   return 0;
}
