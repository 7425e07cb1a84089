// C18: random histories of scratch scopes and of library operations inside them.
//   scratch_driver FAMILY SEED COUNT LOGFILE [START]
#include <TAT/TAT.hpp>

#include "common.hpp"
using namespace h;
namespace pmr = TAT::pmr;
static std::string head(const char* op) {
   op_begin(op);
   return std::string("{\"op\":\"") + op + "\"";
}
static void emit(const std::string& s) {
   write_all(s + "}\n");
}
static std::string kv(const char* k, const std::string& v) {
   return std::string(",\"") + k + "\":" + v;
}
static std::string kv(const char* k, long v) {
   return std::string(",\"") + k + "\":" + num(v);
}
// ordinary memory, recorded
struct Base : pmr::memory_resource {
   struct Block {
      int id;
      char* p;
      size_t size;
   };
   std::vector<Block> blocks;
   int next = 0;
   void* do_allocate(std::size_t bytes, std::size_t) override {
      char* p = static_cast<char*>(malloc(bytes ? bytes : 1));
      blocks.push_back({next++, p, bytes});
      write_all("{\"op\":\"get\"" + kv("region", quote("b" + num(blocks.back().id))) + kv("size", long(bytes)) + "}\n");
      return p;
   }
   void do_deallocate(void* p, std::size_t bytes, std::size_t) override {
      for (size_t i = 0; i < blocks.size(); i++) {
         if (blocks[i].p == p) {
            write_all("{\"op\":\"free\"" + kv("region", quote("b" + num(blocks[i].id))) + kv("size", long(bytes)) + "}\n");
            memset(p, 0xdd, blocks[i].size);
            free(p);
            blocks.erase(blocks.begin() + long(i));
            return;
         }
      }
      write_all("{\"op\":\"free\",\"region\":\"unknown\",\"size\":0}\n");
   }
   bool do_is_equal(const memory_resource& o) const noexcept override {
      return this == &o;
   }
} static base;
struct Scope {
   char* begin;
   size_t size;
   pmr::memory_resource* res;
};
static std::vector<Scope> scopes;
struct Piece {
   int id;
   int scope;
   unsigned char* p;
   size_t size;
   unsigned char seed;
};
static std::vector<Piece> pieces;
static int next_id = 0;
static int current() {
   auto* r = pmr::get_default_resource();
   if (r == &base) {
      return 0;
   }
   for (size_t i = 0; i < scopes.size(); i++) {
      if (scopes[i].res == r) {
         return int(i) + 1;
      }
   }
   return -1;
}
static void check() {
   long bad = 0;
   for (auto& p : pieces) {
      for (size_t i = 0; i < p.size; i++) {
         bad += p.p[i] != static_cast<unsigned char>(p.seed + i * 7);
      }
   }
   emit(head("check") + kv("bad", bad) + kv("cur", current()));
}
static void place(Piece& p, size_t align) {
   std::string region = "none";
   long off = 0;
   auto* c = reinterpret_cast<char*>(p.p);
   for (size_t i = 0; i < scopes.size(); i++) {
      if (c >= scopes[i].begin && c <= scopes[i].begin + scopes[i].size) {
         region = "s" + num(long(i) + 1);
         off = c - scopes[i].begin;
      }
   }
   for (auto& b : base.blocks) {
      if (c >= b.p && (c < b.p + b.size || (p.size == 0 && c == b.p + b.size))) {
         region = "b" + num(b.id);
         off = c - b.p;
      }
   }
   emit(head("alloc") + kv("id", p.id) + kv("scope", p.scope) + kv("region", quote(region)) + kv("off", off) + kv("size", long(p.size)) +
        kv("mod", long(reinterpret_cast<size_t>(p.p) % align)));
   if (region == "none") {
      _exit(0); // it is not to be written to
   }
   for (size_t i = 0; i < p.size; i++) {
      p.p[i] = static_cast<unsigned char>(p.seed + i * 7);
   }
   pieces.push_back(p);
}
static void step_alloc(Rng& g) {
   int s = g.chance(80) ? int(scopes.size()) : g.range(1, int(scopes.size()));
   size_t align = size_t(1) << g.range(0, 4);
   size_t size = g.chance(10) ? 0 : g.chance(70) ? size_t(g.range(1, 48)) : g.chance(80) ? size_t(g.range(1, 700)) : size_t(g.range(700, 9000));
   op_begin("alloc");
   Piece p{next_id++, s, nullptr, size, static_cast<unsigned char>(g.range(0, 255))};
   p.p = static_cast<unsigned char*>(scopes[size_t(s - 1)].res->allocate(size, align));
   place(p, align);
   if (g.chance(20)) {
      // giving back is allowed and does nothing
      scopes[size_t(s - 1)].res->deallocate(p.p, size, align);
      pieces.pop_back();
   }
}
// ---- containers and tensors inside of scopes
static void containers(Rng& g) {
   op_begin("check");
   long bad = 0;
   pmr::vector<int> v;
   pmr::map<int, pmr::vector<int>> m;
   pmr::list<int> l;
   pmr::set<int> s;
   std::vector<int> v2;
   std::map<int, std::vector<int>> m2;
   std::vector<int> l2;
   std::set<int> s2;
   int n = g.range(1, 120);
   for (int i = 0; i < n; i++) {
      int x = g.range(0, 50);
      v.push_back(x);
      v2.push_back(x);
      m[x].push_back(i);
      m2[x].push_back(i);
      l.push_back(x);
      l2.push_back(x);
      s.insert(x);
      s2.insert(x);
   }
   bad += !std::equal(v.begin(), v.end(), v2.begin(), v2.end());
   bad += !std::equal(l.begin(), l.end(), l2.begin(), l2.end());
   bad += !std::equal(s.begin(), s.end(), s2.begin(), s2.end());
   bad += m.size() != m2.size();
   for (auto& [k, w] : m2) {
      bad += !std::equal(m[k].begin(), m[k].end(), w.begin(), w.end());
   }
   auto copy = v;
   auto moved = std::move(v);
   bad += !std::equal(copy.begin(), copy.end(), moved.begin(), moved.end());
   emit(head("check") + kv("bad", bad) + kv("cur", current()));
}
using T = TAT::Tensor<double, TAT::U1Symmetry, TAT::FastName>;
using F = TAT::Tensor<double, TAT::FermiSymmetry, TAT::FastName>;
template<typename X>
using Sym = std::conditional_t<std::is_same_v<X, F>, TAT::FermiSymmetry, TAT::U1Symmetry>;
template<typename X>
using Edg = TAT::Edge<Sym<X>>;
template<typename X>
static std::string digest(const X& t) {
   std::stringstream out;
   TAT::operator<(out, t);
   std::string s = out.str();
   uint64_t hsh = 1469598103934665603ull;
   for (unsigned char c : s) {
      hsh = (hsh ^ c) * 1099511628211ull;
   }
   char b[32];
   snprintf(b, sizeof b, "%llx-%zu", (unsigned long long)hsh, s.size());
   return b;
}
template<typename X>
static X compute(Rng& g) {
   auto edge = [&](std::initializer_list<std::pair<int, TAT::Size>> seg, bool arrow) {
      std::map<Sym<X>, TAT::Size> v;
      for (auto& [a, d] : seg) {
         v[Sym<X>(a)] = d;
      }
      if constexpr (std::is_same_v<X, F>) {
         return Edg<X>(arrow, v);
      } else {
         return Edg<X>(v);
      }
   };
   TAT::Size d = TAT::Size(g.range(1, 3));
   auto a = X({"A", "B", "C"}, {edge({{-1, d}, {0, 1}, {1, 2}}, false), edge({{0, 2}, {1, 1}, {-1, 1}}, true), edge({{0, 1}, {-1, 2}, {1, d}}, true)});
   a.test(1, 1);
   auto b = X({"D", "E"}, {edge({{0, 1}, {1, 2}, {-1, d}}, true), edge({{0, 2}, {1, 1}, {-1, 1}}, false)});
   b.test(2, 1);
   switch (g.range(0, 7)) {
      case 0:
         return a.transpose({"C", "A", "B"});
      case 1:
         return a.merge_edge({{"M", {"A", "B"}}});
      case 2:
         return a.conjugate();
      case 3:
         return a.svd({"A"}, "U", "V").U;
      case 4:
         return a.qr('r', {"B"}, "U", "V").Q;
      case 5:
         return a.shrink(std::map<TAT::FastName, std::pair<Sym<X>, TAT::Size>>{{"A", {Sym<X>(1), 1}}}, "N", false);
      case 6:
         return a.edge_rename({{"A", "Z"}}) + a.edge_rename({{"A", "Z"}}) * 2.;
      default:
         return a.contract(b, {{"B", "E"}});
   }
}
template<typename X>
static void library(Rng& g, std::vector<std::pair<X, std::string>>& kept) {
   op_begin("lib");
   if (g.chance(25)) {
      // a refused operation
      try {
         X({"A", "B"}, {{{0, 1}}, {{0, 2}}}).test().transpose({"A", "C"});
      } catch (const std::exception&) {
      }
   } else {
      auto r = compute<X>(g);
      std::string d = digest(r);
      kept.emplace_back(std::move(r), d);
   }
   emit(head("lib") + kv("cur", current()));
}
static std::vector<std::pair<T, std::string>> kept_t;
static std::vector<std::pair<F, std::string>> kept_f;
struct Stop {};
static void enter(Rng& g, int depth);
static void body(Rng& g, int depth) {
   int n = g.range(2, 14);
   for (int i = 0; i < n; i++) {
      int what = g.range(0, 99);
      if (what < 60) {
         step_alloc(g);
      } else if (what < 75) {
         if (depth < 4) {
            try {
               enter(g, depth + 1);
            } catch (const Stop&) {
            }
         }
      } else if (what < 80) {
         containers(g);
      } else if (what < 88) {
         if (g.chance(50)) {
            library(g, kept_t);
         } else {
            library(g, kept_f);
         }
      } else if (what < 92) {
         // give everything back at once
         emit(head("release"));
         pieces.erase(std::remove_if(pieces.begin(), pieces.end(), [&](auto& p) { return p.scope == int(scopes.size()); }), pieces.end());
         static_cast<pmr::monotonic_buffer_resource*>(scopes.back().res)->release();
         emit(head("released"));
      } else if (what < 94) {
         throw Stop();
      } else {
         check();
      }
   }
   check();
}
struct Leaving {
   ~Leaving() {
      emit(head("leave"));
      pieces.erase(std::remove_if(pieces.begin(), pieces.end(), [&](auto& p) { return p.scope == int(scopes.size()); }), pieces.end());
   }
};
template<size_t N>
static void __attribute__((noinline)) in_scope(Rng& g, int depth) {
   char pad[96];
   memset(pad, 0x5a, sizeof pad);
   bool pushed = false;
   {
      struct Pop {
         bool& p;
         ~Pop() {
            if (p) {
               emit(head("left") + kv("cur", current()));
               scopes.pop_back();
            }
         }
      } pop{pushed};
      op_begin("enter");
      TAT::scope_resource<N> guard;
      auto* r = pmr::get_default_resource();
      char* b = reinterpret_cast<char*>(&guard);
      scopes.push_back({b, sizeof guard, r});
      pushed = true;
      auto* rb = reinterpret_cast<char*>(r);
      bool inside = rb >= b && rb < b + sizeof guard;
      emit(head("enter") + kv("region", quote("s" + num(long(scopes.size())))) + kv("size", long(sizeof guard)) +
           kv("hole", "[" + num(inside ? rb - b : 0) + "," + num(inside ? rb - b + long(sizeof(pmr::monotonic_buffer_resource)) : 0) + "]") +
           kv("cur", current()));
      Leaving leaving;
      body(g, depth);
   }
   for (auto c : pad) {
      if (c != 0x5a) {
         emit(head("check") + kv("bad", 1) + kv("cur", current()));
         break;
      }
   }
}
static void enter(Rng& g, int depth) {
   switch (g.range(0, 9)) {
      case 0: return in_scope<1>(g, depth);
      case 1: return in_scope<7>(g, depth);
      case 2: return in_scope<60>(g, depth);
      case 3: return in_scope<64>(g, depth);
      case 4: return in_scope<100>(g, depth);
      case 5: return in_scope<256>(g, depth);
      case 6: return in_scope<257>(g, depth);
      case 7: return in_scope<1000>(g, depth);
      case 8: return in_scope<4096>(g, depth);
      default: return in_scope<(1 << 15)>(g, depth);
   }
}
static void __attribute__((noinline)) clobber() {
   volatile char big[200000];
   for (size_t i = 0; i < sizeof big; i++) {
      big[i] = char(0xa5);
   }
}
static void run(Rng& g) {
   kept_t.clear();
   kept_f.clear();
   pieces.clear();
   next_id = 0;
   pmr::set_default_resource(&base);
   int n = g.range(1, 3);
   for (int i = 0; i < n; i++) {
      if (g.chance(80)) {
         try {
            enter(g, 1);
         } catch (const Stop&) {
         }
      } else {
         library(g, kept_t);
      }
      clobber();
      for (auto& [t, d] : kept_t) {
         emit(head("kept") + kv("before", quote(d)) + kv("after", quote(digest(t))));
      }
      for (auto& [t, d] : kept_f) {
         emit(head("kept") + kv("before", quote(d)) + kv("after", quote(digest(t))));
      }
   }
   emit(head("check") + kv("bad", 0) + kv("cur", current()));
   kept_t.clear();
   kept_f.clear();
   pmr::set_default_resource(&pmr::new_delete_resource_object);
}
int main(int argc, char** argv) {
   if (argc < 5) {
      return 2;
   }
   uint64_t seed = strtoull(argv[2], nullptr, 10);
   int count = atoi(argv[3]);
   int start = argc > 5 ? atoi(argv[5]) : 0;
   install(argv[4], 30);
   emit(head("meta"));
   for (int i = start; i < count; i++) {
      alarm(30);
      Rng g(seed * 1000003u + uint64_t(i));
      write_all("{\"op\":\"begin\",\"i\":" + num(i) + "}\n");
      run(g);
   }
   write_all("{\"op\":\"end\"}\n");
   return 0;
}
