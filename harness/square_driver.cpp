// C19-C23: histories of the square lattices.
//   square_driver FAMILY SEED COUNT LOGFILE [START]
// FAMILY: aux exact simple sample markov io
#define TAT_USE_MPI
#include <square/square.hpp>

#include "common.hpp"
using namespace h;
using Ten = TAT::Tensor<double>;
using Pos = std::tuple<int, int>;
using Poss = std::vector<Pos>;
using TenP = std::shared_ptr<const Ten>;

// ---- logging
static std::string head(const char* op) {
   op_begin(op);
   return std::string("{\"op\":\"") + op + "\"";
}
static void emit(const std::string& s) {
   write_all(s + "}\n");
}
static std::string kv(const char* k, const std::string& v) {
   return std::string(",\"") + k + "\":" + v;
}
static std::string kv(const char* k, long v) {
   return std::string(",\"") + k + "\":" + num(v);
}
static const long NOT_A_NUMBER = 2000000001;
// v in units of 1/unit; what cannot be written is a number no specification gives
static long fixed(double v, double unit) {
   double x = v * unit;
   if (!(std::abs(x) < 2e9)) {
      return NOT_A_NUMBER;
   }
   return std::lround(x);
}
// an integer, or NOT_A_NUMBER when v is not one up to rounding errors
static long integer(double v, double scale = 1) {
   if (!(std::abs(v) < 2e9)) {
      return NOT_A_NUMBER;
   }
   long r = std::lround(v);
   return std::abs(v - double(r)) <= 1e-7 * std::max(1., scale) ? r : NOT_A_NUMBER;
}
static std::string longs(const std::vector<long>& v) {
   return list(v, [](long x) { return num(x); });
}
static std::string pos_json(const Poss& p, int N) {
   return list(p, [&](const Pos& x) { return num(std::get<0>(x) * N + std::get<1>(x) + 1); });
}

// ---- sites: dims p u l d r, values row-major
struct Site {
   long dim[5];
   std::vector<double> v;
   long size() const {
      return dim[0] * dim[1] * dim[2] * dim[3] * dim[4];
   }
   double at(long p, long u, long l, long d, long r) const {
      return v[size_t((((p * dim[1] + u) * dim[2] + l) * dim[3] + d) * dim[4] + r)];
   }
};
static const char* LETTER = "PULDR";
static std::string site_json(const Site& s) {
   return "{\"dim\":[" + num(s.dim[0]) + "," + num(s.dim[1]) + "," + num(s.dim[2]) + "," + num(s.dim[3]) + "," + num(s.dim[4]) + "],\"v\":" +
          list(s.v, [](double x) { return num(integer(x)); }) + "}";
}
// a tensor as a site; suffix "0" for holes
static bool project(const Ten& t, Site& s, const std::string& suffix = "") {
   for (auto& d : s.dim) {
      d = 1;
   }
   std::vector<int> which;
   for (size_t i = 0; i < t.names.size(); i++) {
      std::string n = t.names[i];
      int k = -1;
      for (int x = 0; x < 5; x++) {
         if (n == std::string(1, LETTER[x]) + suffix) {
            k = x;
         }
      }
      if (k < 0) {
         return false;
      }
      s.dim[k] = long(t.core->edges[i].map.begin()->second);
      which.push_back(k);
   }
   s.v.clear();
   for (long i = 0; i < s.size(); i++) {
      long x = i, idx[5];
      for (int k = 4; k >= 0; k--) {
         idx[k] = x % s.dim[k];
         x /= s.dim[k];
      }
      std::map<TAT::FastName, TAT::Size> m;
      for (size_t k = 0; k < which.size(); k++) {
         m[t.names[k]] = TAT::Size(idx[which[k]]);
      }
      s.v.push_back(t.const_at(m));
   }
   return true;
}
// edges: bit k set when edge k is there; in random order
static Ten build(Rng& g, const Site& s, int edges) {
   std::vector<int> ks;
   for (int k = 0; k < 5; k++) {
      if (edges & (1 << k)) {
         ks.push_back(k);
      }
   }
   if (g.chance(50)) {
      g.shuffle(ks);
   }
   std::vector<TAT::FastName> names;
   std::vector<TAT::Edge<TAT::NoSymmetry>> es;
   for (int k : ks) {
      names.push_back(std::string(1, LETTER[k]));
      es.push_back(TAT::Edge<TAT::NoSymmetry>(TAT::Size(s.dim[k])));
   }
   Ten t(names, es);
   t.zero();
   for (long i = 0; i < s.size(); i++) {
      long x = i, idx[5];
      for (int k = 4; k >= 0; k--) {
         idx[k] = x % s.dim[k];
         x /= s.dim[k];
      }
      std::map<TAT::FastName, TAT::Size> m;
      for (int k : ks) {
         m[std::string(1, LETTER[k])] = TAT::Size(idx[k]);
      }
      t.at(m) = s.v[size_t(i)];
   }
   return t;
}
struct Shape {
   int M, N;
   long d;
   std::vector<long> right, down; // dimension of the edge to the right and below every site
   int edges(int i, int j, bool physics) const {
      return (physics ? 1 : 0) | (i > 0 ? 2 : 0) | (j > 0 ? 4 : 0) | (i < M - 1 ? 8 : 0) | (j < N - 1 ? 16 : 0);
   }
   Site site(Rng& g, int i, int j, bool physics, int lo, int hi) const {
      Site s;
      s.dim[0] = physics ? d : 1;
      s.dim[1] = i > 0 ? down[size_t((i - 1) * N + j)] : 1;
      s.dim[2] = j > 0 ? right[size_t(i * N + j - 1)] : 1;
      s.dim[3] = i < M - 1 ? down[size_t(i * N + j)] : 1;
      s.dim[4] = j < N - 1 ? right[size_t(i * N + j)] : 1;
      s.v.resize(size_t(s.size()));
      bool any = false;
      for (auto& x : s.v) {
         x = g.range(lo, hi);
         any = any || x != 0;
      }
      if (!any) {
         s.v[size_t(g.range(0, int(s.v.size()) - 1))] = 1;
      }
      return s;
   }
};
static Shape shape(Rng& g, int max_sites, long d, int max_dim, bool one = true) {
   Shape s;
   do {
      s.M = g.range(1, 4);
      s.N = g.range(1, 4);
   } while (s.M * s.N > max_sites || (s.M * s.N < 2 && (!one || !g.chance(30))));
   s.d = d;
   for (int i = 0; i < s.M * s.N; i++) {
      s.right.push_back(g.range(g.chance(80) ? 2 : 1, max_dim));
      s.down.push_back(g.range(g.chance(80) ? 2 : 1, max_dim));
   }
   return s;
}
// contraction of sites with fixed spins; only for guards and for networks whose
// tensors are not integers
static double contract(int N, const std::vector<Site>& net, const std::vector<int>& spin, bool absolute) {
   std::vector<long> vd(size_t(N), 1);
   long hd = 1;
   std::vector<double> b{1};
   for (size_t k = 0; k < net.size(); k++) {
      size_t j = k % size_t(N);
      const auto& A = net[k];
      long lp = 1, rp = 1;
      for (size_t x = 0; x < j; x++) {
         lp *= vd[x];
      }
      for (size_t x = j + 1; x < size_t(N); x++) {
         rp *= vd[x];
      }
      long U = vd[j], L = hd, D = A.dim[3], R = A.dim[4];
      if (U != A.dim[1] || L != A.dim[2]) {
         return NAN;
      }
      std::vector<double> n(size_t(lp * D * rp * R), 0.);
      for (long x = 0; x < lp; x++) {
         for (long u = 0; u < U; u++) {
            for (long y = 0; y < rp; y++) {
               for (long l = 0; l < L; l++) {
                  double c = b[size_t(((x * U + u) * rp + y) * L + l)];
                  if (c == 0) {
                     continue;
                  }
                  for (long dd = 0; dd < D; dd++) {
                     for (long r = 0; r < R; r++) {
                        double a = A.at(spin.empty() ? 0 : spin[k], u, l, dd, r);
                        n[size_t(((x * D + dd) * rp + y) * R + r)] += c * (absolute ? std::abs(a) : a);
                     }
                  }
               }
            }
         }
      }
      b = std::move(n);
      vd[j] = D;
      hd = R;
   }
   return b.size() == 1 ? b[0] : NAN;
}
static std::vector<int> spins_of(long c, int n, long d) {
   std::vector<int> r(size_t(n), 0);
   for (int k = n - 1; k >= 0; k--) {
      r[size_t(k)] = int(c % d);
      c /= d;
   }
   return r;
}
static long ipow(long a, int n) {
   long r = 1;
   for (int i = 0; i < n; i++) {
      r *= a;
   }
   return r;
}
static std::vector<double> state_of(int N, long d, const std::vector<Site>& sites, bool absolute = false) {
   std::vector<double> v;
   for (long c = 0; c < ipow(d, int(sites.size())); c++) {
      v.push_back(contract(N, sites, spins_of(c, int(sites.size()), d), absolute));
   }
   return v;
}
static double max_abs(const std::vector<double>& v) {
   double m = 0;
   for (double x : v) {
      if (!(std::abs(x) <= m)) {
         m = std::abs(x);
      }
   }
   return m;
}

// ---- terms
struct Term {
   Poss pos;
   std::vector<std::vector<int>> h; // h[in][out]
   TenP tensor;
};
static std::string matrix_json(const std::vector<std::vector<int>>& h) {
   return list(h, [](const std::vector<int>& r) { return list(r, [](int x) { return num(x); }); });
}
static std::string term_json(const Term& t, int N) {
   return "{\"pos\":" + pos_json(t.pos, N) + ",\"h\":" + matrix_json(t.h) + "}";
}
static std::string terms_json(const std::vector<Term>& ts, int N) {
   return list(ts, [&](const Term& t) { return term_json(t, N); });
}
static TenP operator_tensor(Rng& g, const std::vector<std::vector<int>>& h, int body, long d) {
   std::vector<std::string> names;
   for (int i = 0; i < body; i++) {
      names.push_back("I" + std::to_string(i));
      names.push_back("O" + std::to_string(i));
   }
   if (g.chance(60)) {
      g.shuffle(names);
   }
   std::vector<TAT::FastName> ns(names.begin(), names.end());
   std::vector<TAT::Edge<TAT::NoSymmetry>> es(ns.size(), TAT::Edge<TAT::NoSymmetry>(TAT::Size(d)));
   Ten t(ns, es);
   t.zero();
   for (size_t in = 0; in < h.size(); in++) {
      auto si = spins_of(long(in), body, d);
      for (size_t out = 0; out < h.size(); out++) {
         auto so = spins_of(long(out), body, d);
         std::map<TAT::FastName, TAT::Size> m;
         for (int i = 0; i < body; i++) {
            m["I" + std::to_string(i)] = TAT::Size(si[size_t(i)]);
            m["O" + std::to_string(i)] = TAT::Size(so[size_t(i)]);
         }
         t.at(m) = h[in][out];
      }
   }
   return std::make_shared<const Ten>(std::move(t));
}
static Term term(Rng& g, const Poss& pos, std::vector<std::vector<int>> h, long d) {
   Term t;
   t.pos = pos;
   t.tensor = operator_tensor(g, h, int(pos.size()), d);
   t.h = std::move(h);
   return t;
}
static std::vector<std::vector<int>> random_matrix(Rng& g, long n, int hi, int percent, bool hermitian) {
   std::vector<std::vector<int>> h(size_t(n), std::vector<int>(size_t(n), 0));
   for (size_t i = 0; i < size_t(n); i++) {
      for (size_t j = 0; j < size_t(n); j++) {
         if (g.chance(percent)) {
            h[i][j] = g.range(-hi, hi);
         }
      }
   }
   if (hermitian) {
      for (size_t i = 0; i < size_t(n); i++) {
         for (size_t j = 0; j < i; j++) {
            h[i][j] = h[j][i];
         }
      }
   }
   return h;
}
// u v^T with v.u as given
static std::vector<std::vector<int>> dyad(Rng& g, long n, int want) {
   while (true) {
      std::vector<int> u, v;
      int dot = 0, nu = 0, nv = 0;
      for (long i = 0; i < n; i++) {
         u.push_back(g.range(-1, 1));
         v.push_back(g.range(-1, 1));
         dot += u.back() * v.back();
         nu += std::abs(u.back());
         nv += std::abs(v.back());
      }
      if (dot == want && nu && nv) {
         std::vector<std::vector<int>> h(size_t(n), std::vector<int>(size_t(n), 0));
         for (size_t i = 0; i < size_t(n); i++) {
            for (size_t j = 0; j < size_t(n); j++) {
               h[i][j] = u[i] * v[j];
            }
         }
         return h;
      }
   }
}
static std::vector<std::vector<int>> nilpotent(Rng& g, long n) {
   return dyad(g, n, 0);
}
// h.h = h or h.h = 1
static std::vector<std::vector<int>> projector_or_reflection(Rng& g, long n) {
   auto h = dyad(g, n, 1);
   if (g.chance(50)) {
      for (size_t i = 0; i < size_t(n); i++) {
         for (size_t j = 0; j < size_t(n); j++) {
            h[i][j] = (i == j) - 2 * h[i][j];
         }
      }
   }
   return h;
}
// on one of two sites only
static std::vector<std::vector<int>> beside_identity(const std::vector<std::vector<int>>& h, bool first) {
   size_t d = h.size();
   std::vector<std::vector<int>> r(d * d, std::vector<int>(d * d, 0));
   for (size_t i = 0; i < d; i++) {
      for (size_t j = 0; j < d; j++) {
         for (size_t k = 0; k < d; k++) {
            (first ? r[i * d + k][j * d + k] : r[k * d + i][k * d + j]) = h[i][j];
         }
      }
   }
   return r;
}
static Poss bond(Rng& g, int M, int N, bool reversed_too) {
   while (true) {
      int i = g.range(0, M - 1), j = g.range(0, N - 1);
      Poss p;
      if (g.chance(50)) {
         if (j + 1 >= N) {
            continue;
         }
         p = {{i, j}, {i, j + 1}};
      } else {
         if (i + 1 >= M) {
            continue;
         }
         p = {{i, j}, {i + 1, j}};
      }
      if (reversed_too && g.chance(40)) {
         std::swap(p[0], p[1]);
      }
      return p;
   }
}
// a set of terms with different positions
// the operator of two sites with the sites exchanged
static std::vector<std::vector<int>> exchanged(const std::vector<std::vector<int>>& h, long d, int factor) {
   auto r = h;
   auto swap = [&](size_t i) { return (i % size_t(d)) * size_t(d) + i / size_t(d); };
   for (size_t i = 0; i < h.size(); i++) {
      for (size_t j = 0; j < h.size(); j++) {
         r[swap(i)][swap(j)] = factor * h[i][j];
      }
   }
   return r;
}
// terms on sites and bonds; a bond may have a term in either order of its sites,
// which are then multiples of the same operator (1) or the same (2) if they have to commute
static std::vector<Term>
supported_terms(Rng& g, int M, int N, long d, int count, bool reversed_too, const std::function<std::vector<std::vector<int>>(long)>& matrix, int commuting = 0) {
   std::vector<Term> ts;
   std::map<Poss, std::vector<std::vector<int>>> seen;
   auto insert = [&](const Poss& p) {
      auto q = p;
      std::reverse(q.begin(), q.end());
      if (seen.count(p) || (seen.count(q) && !reversed_too)) {
         return;
      }
      if (seen.count(q) && commuting) {
         int f = commuting == 1 ? g.range(1, 3) : 1;
         ts.push_back(term(g, p, exchanged(seen[q], d, f == 3 ? -1 : f), d));
      } else if (!ts.empty() && ts.back().pos.size() == p.size() && g.chance(40)) { // one tensor for several terms
         Term t = ts.back();
         t.pos = p;
         ts.push_back(t);
      } else {
         ts.push_back(term(g, p, matrix(ipow(d, int(p.size()))), d));
      }
      seen[p] = ts.back().h;
   };
   for (int k = 0; k < count; k++) {
      if (M * N == 1 || g.chance(25)) {
         insert({{g.range(0, M - 1), g.range(0, N - 1)}});
      } else {
         auto p = bond(g, M, N, reversed_too);
         insert(p);
         if (reversed_too && g.chance(20)) {
            std::swap(p[0], p[1]);
            insert(p);
         }
      }
   }
   return ts;
}
template<typename L>
static void set_terms(L& lattice, const std::vector<Term>& ts) {
   lattice.hamiltonians.clear();
   for (const auto& t : ts) {
      lattice.hamiltonians[t.pos] = t.tensor;
   }
}
template<typename L>
static std::vector<Site> sites_of(const L& x) {
   std::vector<Site> r;
   for (const auto& row : x.lattice) {
      for (const auto& t : row) {
         Site s;
         if (!project(t, s)) {
            s.dim[0] = 0;
         }
         r.push_back(s);
      }
   }
   return r;
}
static std::string sites_json(const std::vector<Site>& s) {
   return list(s, site_json);
}

#include "square_io.hpp"

#include "square_aux.hpp"
#include "square_exact.hpp"
#include "square_simple.hpp"
#include "square_sample.hpp"
#include "square_convert.hpp"

int main(int argc, char** argv) {
   if (argc < 5) {
      return 2;
   }
   setenv("OMPI_MCA_ess_singleton_isolated", "1", 1);
   std::string family = argv[1];
   auto seed = uint64_t(atoll(argv[2]));
   int count = atoi(argv[3]), start = argc > 5 ? atoi(argv[5]) : 0;
   std::string path = argv[4];
   if (TAT::mpi.size > 1) {
      path += "." + std::to_string(TAT::mpi.rank);
   }
   // processes must intern names in the same order (C15), which the library does
   // not do for the names that only one of them uses during an update
   for (const char* n : {"P", "U", "L", "D", "R", "I0", "O0", "I1", "O1"}) {
      (void)TAT::FastName(n);
   }
   names_at_start = std::make_unique<TAT::fast_name_dataset_t>(TAT::fast_name_dataset);
   hopping = family == "io";
   install(path.c_str(), 280);
   if (!freopen("/dev/null", "w", stderr)) { // the library warns about absent edges at every border
      return 3;
   }
   std::ostringstream sink;
   auto* old = std::cout.rdbuf(sink.rdbuf());
   emit(head("meta") + kv("family", quote(family)));
   for (int i = start; i < count; i++) {
      Rng g(seed * 1000003ull + uint64_t(i));
      sink.str("");
      emit(head("begin") + kv("i", i));
      square::random::engine.seed(uint32_t(seed * 31 + uint64_t(i) + 1));
      try {
         if (family == "aux") {
            aux_case(g);
         } else if (family == "exact") {
            exact_case(g);
         } else if (family == "simple") {
            simple_case(g);
         } else if (family == "sample") {
            sample_case(g);
         } else if (family == "markov") {
            markov_case(g);
         } else if (family == "io") {
            io_case(g);
         }
      } catch (const std::exception& e) {
         emit(head("threw") + kv("in", quote(current_op)) + kv("what", quote(e.what())));
      }
   }
   emit(head("end"));
   std::cout.rdbuf(old);
   return 0;
}
