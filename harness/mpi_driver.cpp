// C17: random sequences of collective operations, run under mpirun.
//   mpi_driver MODE SEED COUNT LOGPREFIX
// Every process writes LOGPREFIX.RANK; tools/other_checks.py joins them.
// MODE has s: sends wait for their receiver; d: random delays around messages.
#define TAT_USE_MPI
#include <TAT/TAT.hpp>
#include <time.h>

#include "common.hpp"
using namespace h;
static bool sync_mode = false, delay_mode = false;
static Rng noise(1);
static void nap() {
   if (delay_mode && noise.chance(30)) {
      usleep(useconds_t(noise.range(0, 2000)));
   }
}
// what MPI_Send may do is wait for the receiver
extern "C" int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
   nap();
   return sync_mode ? PMPI_Ssend(b, n, t, d, tag, c) : PMPI_Send(b, n, t, d, tag, c);
}
extern "C" int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
   nap();
   return PMPI_Recv(b, n, t, s, tag, c, st);
}
static std::string kv(const char* k, const std::string& v) {
   return std::string(",\"") + k + "\":" + v;
}
static std::string kv(const char* k, long v) {
   return std::string(",\"") + k + "\":" + num(v);
}
static void log(const char* op, int i, const std::string& common, const std::string& in, const std::string& out) {
   write_all(std::string("{\"op\":\"") + op + "\"" + kv("i", i) + kv("size", TAT::mpi.size) + common + kv("in", in) + kv("out", out) + "}\n");
}
static std::string digest(const std::string& s) {
   uint64_t x = 1469598103934665603ull;
   for (unsigned char c : s) {
      x = (x ^ c) * 1099511628211ull;
   }
   char b[48];
   snprintf(b, sizeof b, "\"%016llx-%zu\"", (unsigned long long)x, s.size());
   return b;
}
template<typename T>
static std::string digest_tensor(const T& t) {
   std::stringstream out;
   TAT::operator<(out, t);
   return digest(out.str());
}
static std::string tokens(const std::string& s) {
   std::string r = "[";
   for (size_t i = 0; i < s.size();) {
      size_t n = 1;
      if (s[i] != '(' && s[i] != ')') {
         size_t e = s.find(';', i);
         n = e == std::string::npos ? s.size() - i : e + 1 - i;
      }
      r += (r.size() > 1 ? "," : "") + quote(s.substr(i, n));
      i += n;
   }
   return r + "]";
}
template<typename Sym>
using Ten = TAT::Tensor<std::complex<double>, Sym, TAT::FastName>;
template<typename Sym>
static Ten<Sym> tensor(Rng& g) {
   static const char* names[] = {"A", "B", "C", "D"};
   int n = g.range(0, 4);
   std::vector<TAT::FastName> ns;
   std::vector<TAT::Edge<Sym>> es;
   for (int i = 0; i < n; i++) {
      ns.push_back(names[i]);
      if constexpr (std::is_same_v<Sym, TAT::NoSymmetry>) {
         es.push_back(TAT::Edge<Sym>(TAT::Size(g.range(1, g.chance(10) ? 12 : 3))));
      } else {
         std::map<Sym, TAT::Size> m;
         for (int k = -1; k <= 1; k++) {
            if (g.chance(70)) {
               m[Sym(k)] = TAT::Size(g.range(1, 3));
            }
         }
         if (m.empty()) {
            m[Sym(0)] = 1;
         }
         if constexpr (std::is_same_v<Sym, TAT::FermiSymmetry>) {
            es.push_back(TAT::Edge<Sym>(g.chance(50), m));
         } else {
            es.push_back(TAT::Edge<Sym>(m));
         }
      }
   }
   auto t = Ten<Sym>(ns, es);
   t.set([&] { return std::complex<double>(g.range(-9, 9), g.range(-9, 9)); });
   return t;
}
static std::string text(Rng& g) {
   int n = g.chance(10) ? 0 : g.chance(75) ? g.range(1, 200) : g.chance(70) ? g.range(1000, 70000) : g.range(100000, 2000000);
   std::string s(size_t(n), ' ');
   for (int i = 0; i < n; i += 1 + n / 500) {
      s[size_t(i)] = char(g.range(0, 255));
   }
   return s;
}
static long epoch = 0;
static long now() {
   timespec t;
   clock_gettime(CLOCK_MONOTONIC, &t);
   return long(t.tv_sec * 1000000 + t.tv_nsec / 1000 - epoch);
}
// `g` is the same on every process, `own` is not
template<typename T, typename Make, typename Dig>
static void move_values(int i, Rng& g, Rng& own, Make&& make, Dig&& dig) {
   auto& mpi = TAT::mpi;
   if (mpi.size > 1 && g.chance(50)) {
      int src = g.range(0, mpi.size - 1);
      int dst = (src + g.range(1, mpi.size - 1)) % mpi.size;
      int n = g.range(1, 4);
      bool pair = g.chance(50);
      std::string in = "[", out = "[";
      for (int k = 0; k < n; k++) {
         T v = make(own);
         in += (k ? "," : "") + dig(v);
         if (pair) {
            T r = mpi.send_receive(v, src, dst);
            if (mpi.rank == dst) {
               out += (k ? "," : "") + dig(r);
            }
         } else if (mpi.rank == src) {
            mpi.send(v, dst);
         } else if (mpi.rank == dst) {
            out += (k ? "," : "") + dig(mpi.template receive<T>(src));
         }
      }
      log("send", i, kv("src", src) + kv("dst", dst), in + "]", out + "]");
   } else {
      int root = g.range(0, mpi.size - 1);
      T v = make(own);
      std::string in = dig(v);
      T r = mpi.broadcast(v, root);
      log("bcast", i, kv("root", root), in, dig(r));
   }
}
static void one(int i, Rng& g, Rng& own) {
   auto& mpi = TAT::mpi;
   int what = g.range(0, 99);
   if (what < 20) {
      op_begin("text");
      move_values<std::string>(i, g, own, text, [](const std::string& s) { return digest(s); });
   } else if (what < 45) {
      op_begin("tensor");
      auto dig = [](const auto& t) { return digest_tensor(t); };
      switch (g.range(0, 2)) {
         case 0: return move_values<Ten<TAT::NoSymmetry>>(i, g, own, tensor<TAT::NoSymmetry>, dig);
         case 1: return move_values<Ten<TAT::U1Symmetry>>(i, g, own, tensor<TAT::U1Symmetry>, dig);
         default: return move_values<Ten<TAT::FermiSymmetry>>(i, g, own, tensor<TAT::FermiSymmetry>, dig);
      }
   } else if (what < 75) {
      op_begin("reduce");
      int root = g.range(0, mpi.size - 1);
      std::string v = num(mpi.rank) + "." + num(i) + "." + num(own.range(0, 99)) + ";";
      std::string in = tokens(v);
      auto r = mpi.reduce(v, root, [](const std::string& a, const std::string& b) { return "(" + a + b + ")"; });
      log("reduce", i, kv("root", root), in, tokens(r));
   } else if (what < 88) {
      op_begin("sum");
      int root = g.range(0, mpi.size - 1);
      TAT::Size n = TAT::Size(g.range(1, 40));
      auto t = TAT::Tensor<double, TAT::NoSymmetry, TAT::FastName>({"A"}, {n});
      std::string in = "[", out = "[";
      t.set([&] { return double(own.range(-1000, 1000)); });
      for (TAT::Size k = 0; k < n; k++) {
         in += (k ? "," : "") + num(long(t.at({{"A", k}})));
      }
      auto r = t.reduce(root, [](const auto& a, const auto& b) { return a + b; });
      if (mpi.rank == root) {
         for (TAT::Size k = 0; k < n; k++) {
            out += (k ? "," : "") + num(long(r.at({{"A", k}})));
         }
      }
      log("sum", i, kv("root", root), in + "]", out + "]");
   } else if (what < 94) {
      op_begin("barrier");
      if (own.chance(50)) {
         usleep(useconds_t(own.range(0, 3000)));
      }
      long a = now();
      mpi.barrier();
      long b = now();
      log("barrier", i, "", num(a), num(b));
   } else {
      op_begin("reject");
      int root = g.chance(50) ? -g.range(1, 3) : mpi.size + g.range(0, 3);
      int bad = 0;
      std::string v = "x";
      try {
         if (g.chance(50)) {
            mpi.broadcast(v, root);
         } else {
            mpi.reduce(v, root, [](const std::string& a, const std::string& b) { return a + b; });
         }
      } catch (const std::exception&) {
         bad = 1;
      }
      log("reject", i, kv("root", root), "0", num(bad));
   }
}
int main(int argc, char** argv) {
   if (argc < 5) {
      return 2;
   }
   std::string mode = argv[1];
   uint64_t seed = strtoull(argv[2], nullptr, 10);
   int count = atoi(argv[3]);
   auto& mpi = TAT::mpi;
   for (auto n : {"A", "B", "C", "D"}) {
      TAT::FastName x(n);
      (void)x;
   }
   install((std::string(argv[4]) + "." + num(mpi.rank)).c_str(), 60);
   sync_mode = mode.find('s') != std::string::npos;
   delay_mode = mode.find('d') != std::string::npos;
   noise = Rng(seed * 77 + uint64_t(mpi.rank));
   Rng g(seed), own(seed * 1000 + uint64_t(mpi.rank) + 1);
   write_all("{\"op\":\"meta\",\"size\":" + num(mpi.size) + "}\n");
   epoch = now();
   PMPI_Bcast(&epoch, 1, MPI_LONG, 0, MPI_COMM_WORLD);
   for (int i = 0; i < count; i++) {
      alarm(60);
      one(i, g, own);
   }
   // a message nobody took would still be there
   int flag = 0;
   MPI_Barrier(MPI_COMM_WORLD);
   MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &flag, MPI_STATUS_IGNORE);
   write_all("{\"op\":\"end\",\"left\":" + num(flag) + "}\n");
   return 0;
}
