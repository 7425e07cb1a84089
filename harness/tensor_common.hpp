// Projection of TAT tensors to the abstract tensors of TensorAlgebra.tla, and
// random generation of shapes.  SYM and SCALAR are given by -D.
#pragma once
#ifndef TAT_NOTHING_BITS
#define TAT_NOTHING_BITS 7
#endif
#include <TAT/TAT.hpp>

#include <utility>

#include "common.hpp"

#ifndef SYM
#define SYM NoSymmetry
#endif
#ifndef SCALAR
#define SCALAR double
#endif
using Sym = TAT::SYM;
using Scalar = SCALAR;
using Name = TAT::DefaultName;
using Edge = TAT::Edge<Sym>;
using T = TAT::Tensor<Scalar, Sym, Name>;
using Size = TAT::Size;
constexpr bool is_no = std::is_same_v<Sym, TAT::NoSymmetry>;
constexpr bool is_fermi = TAT::is_fermi_symmetry_v<Sym>;
constexpr bool is_cplx = TAT::is_complex_v<Scalar>;
using Real = TAT::real_base_t<Scalar>;

namespace h {
   template<typename S>
   std::vector<long long> sym_comp(const S& s) {
      if constexpr (std::is_same_v<S, TAT::NoSymmetry>) {
         return {};
      } else if constexpr (std::is_same_v<S, TAT::Z2Symmetry>) {
         return {s.z2 ? 1 : 0};
      } else if constexpr (std::is_same_v<S, TAT::U1Symmetry>) {
         return {(long long)s.u1};
      } else if constexpr (std::is_same_v<S, TAT::FermiSymmetry>) {
         return {(long long)s.fermi};
      } else if constexpr (std::is_same_v<S, TAT::FermiZ2Symmetry>) {
         return {(long long)s.fermi, s.z2 ? 1 : 0};
      } else {
         return {(long long)s.fermi, (long long)s.u1};
      }
   }
   template<typename S>
   std::string j(const S& s) {
      return list(sym_comp(s), num);
   }
   inline std::string jn(const Name& n) {
      return quote(static_cast<const std::string&>(n));
   }
   template<typename V>
   std::string jnames(const V& v) {
      return list(v, jn);
   }
   template<typename M>
   std::string jsegs(const M& m) {
      std::string r = "[";
      bool first = true;
      for (const auto& [s, d] : m) {
         if (!first)
            r += ',';
         first = false;
         r += "[" + j(s) + "," + num((long long)d) + "]";
      }
      return r + "]";
   }
   template<typename E>
   std::string jedge(const E& e) {
      int a = 0;
      if constexpr (TAT::is_fermi_symmetry_v<typename E::symmetry_type>) {
         a = e.arrow ? 1 : 0;
      }
      return "[" + num(a) + "," + jsegs(e.map) + "]";
   }

   // numbers are logged as integers; scale > 1 gives fixed point
   inline bool inexact = false;
   inline std::string jr(double v, double scale) {
      double x = v * scale;
      if (!(std::abs(x) < 2e9)) {
         inexact = true;
         return "0";
      }
      double r = std::round(x);
      if (scale == 1 && r != x) {
         inexact = true;
      }
      return num((long long)r);
   }
   template<typename V>
   std::string jv(const V& v, double scale = 1) {
      if constexpr (TAT::is_complex_v<V>) {
         return "[" + jr(double(v.real()), scale) + "," + jr(double(v.imag()), scale) + "]";
      } else {
         return jr(double(v), scale);
      }
   }
   template<typename Ten>
   std::string body(const Ten& t, double scale = 1) {
      inexact = false;
      std::string keys = "[", vals = "[";
      bool first = true;
      for (const auto& [k, b] : t.core->blocks) {
         if (!first) {
            keys += ',';
            vals += ',';
         }
         first = false;
         if constexpr (std::is_same_v<typename Ten::symmetry_t, TAT::NoSymmetry>) {
            keys += list(t.names, [](const auto&) { return std::string("[]"); });
         } else {
            keys += list(k, [](const auto& s) { return j(s); });
         }
         vals += list(b, [&](const auto& v) { return jv(v, scale); });
      }
      // the lookup table of the names has to agree with the names
      bool idx = t.name_to_index.size() == t.names.size();
      for (size_t i = 0; i < t.names.size() && idx; i++) {
         auto f = t.name_to_index.find(t.names[i]);
         idx = f != t.name_to_index.end() && size_t(f->second) == i;
      }
      return "\"names\":" + jnames(t.names) + ",\"edges\":" + list(t.core->edges, [](const auto& e) { return jedge(e); }) + ",\"keys\":" + keys +
             "],\"vals\":" + vals + "],\"idx\":" + bools(idx) + ",\"exact\":" + bools(!inexact);
   }
   template<typename Ten>
   std::string res(const Ten& t, double scale = 1) {
      if (!t.core) {
         return "{\"ok\":2}";
      }
      return "{\"ok\":1," + body(t, scale) + "}";
   }
   inline std::string err() {
      return "{\"ok\":0}";
   }

   // ---- shapes
   template<typename S = Sym>
   std::vector<S> sym_pool() {
      if constexpr (std::is_same_v<S, TAT::NoSymmetry>) {
         return {S()};
      } else if constexpr (std::is_same_v<S, TAT::Z2Symmetry>) {
         return {S(false), S(true)};
      } else if constexpr (std::is_same_v<S, TAT::U1Symmetry> || std::is_same_v<S, TAT::FermiSymmetry>) {
         return {S(-2), S(-1), S(0), S(1), S(2)};
      } else if constexpr (std::is_same_v<S, TAT::FermiZ2Symmetry>) {
         return {S(-1, false), S(-1, true), S(0, false), S(0, true), S(1, false), S(1, true)};
      } else {
         return {S(-1, -1), S(-1, 1), S(0, 0), S(1, 1), S(1, -1), S(0, 2), S(2, 0)};
      }
   }
   // positions as the library wants them
   template<typename P = T::EdgePoint>
   P make_point([[maybe_unused]] const Sym& s, Size x) {
      if constexpr (std::is_same_v<P, Size>) {
         return x;
      } else {
         return P(s, x);
      }
   }
   template<typename P = T::EdgePoint>
   std::string jpoint(const P& p) {
      if constexpr (std::is_same_v<P, Size>) {
         return "[]," + num((long long)p);
      } else {
         return j(std::get<0>(p)) + "," + num((long long)std::get<1>(p));
      }
   }
   template<typename P = T::EdgePointWithArrow>
   P make_expand([[maybe_unused]] bool a, [[maybe_unused]] const Sym& s, Size x, Size d) {
      if constexpr (std::tuple_size_v<P> == 2) {
         return P(x, d);
      } else if constexpr (std::tuple_size_v<P> == 3) {
         return P(s, x, d);
      } else {
         return P(a, s, x, d);
      }
   }
   using Segs = std::map<Sym, Size>;
   template<typename E = Edge>
   E make_edge(const Segs& m, [[maybe_unused]] bool arrow) {
      if constexpr (std::is_same_v<typename E::symmetry_type, TAT::NoSymmetry>) {
         return E(m.begin()->second);
      } else if constexpr (TAT::is_fermi_symmetry_v<typename E::symmetry_type>) {
         return E(arrow, m);
      } else {
         return E(m);
      }
   }
   inline int zero_dims = 0; // how often (in percent) a segment has dimension zero
   inline Segs random_segs(Rng& g, int maxseg, int maxdim) {
      Segs m;
      auto dimension = [&] { return zero_dims && g.chance(zero_dims) ? Size(0) : Size(g.range(1, maxdim)); };
      if constexpr (is_no) {
         m[Sym()] = dimension();
      } else {
         auto pool = sym_pool();
         g.shuffle(pool);
         int n = std::min<int>(g.range(1, maxseg), int(pool.size()));
         for (int i = 0; i < n; i++) {
            m[pool[size_t(i)]] = dimension();
         }
      }
      return m;
   }
   inline Edge random_edge(Rng& g, int maxseg = 3, int maxdim = 3) {
      return make_edge(random_segs(g, maxseg, maxdim), g.chance(50));
   }
   inline Segs segs_of(const Edge& e) {
      Segs m;
      for (const auto& [s, d] : e.map) {
         m[s] = d;
      }
      return m;
   }
   template<typename E>
   bool arrow_of([[maybe_unused]] const E& e) {
      if constexpr (TAT::is_fermi_symmetry_v<typename E::symmetry_type>) {
         return e.arrow;
      } else {
         return false;
      }
   }
   // the edge that can be contracted with e
   inline Edge partner(const Edge& e) {
      Segs m;
      for (const auto& [s, d] : e.map) {
         m[-s] = d;
      }
      return make_edge(m, !arrow_of(e));
   }
   inline size_t dim(const Edge& e) {
      size_t r = 0;
      for (const auto& [s, d] : e.map) {
         r += d;
      }
      return r;
   }
   // number of stored elements of a tensor with these edges
   inline size_t volume(const std::vector<Edge>& es, size_t* blocks = nullptr) {
      std::map<Sym, std::pair<double, double>> acc; // symmetry -> (elements, combos)
      acc[Sym()] = {1, 1};
      for (const auto& e : es) {
         std::map<Sym, std::pair<double, double>> nx;
         for (const auto& [s, v] : acc) {
            for (const auto& [q, d] : e.map) {
               auto& r = nx[s + q];
               r.first += v.first * double(d);
               r.second += v.second;
            }
         }
         acc = nx;
      }
      auto f = acc.find(Sym());
      if (blocks) {
         *blocks = f == acc.end() ? 0 : size_t(f->second.second);
      }
      return f == acc.end() ? 0 : size_t(f->second.first);
   }
   inline double combos(const std::vector<Edge>& es) {
      double r = 1;
      for (const auto& e : es) {
         r *= double(e.map.size());
      }
      return r;
   }
   // change the segments of one edge so that at least one block exists
   inline void make_compatible(Rng& g, std::vector<Edge>& es, size_t which) {
      if constexpr (!is_no) {
         Sym s;
         for (size_t i = 0; i < es.size(); i++) {
            if (i == which || es[i].map.size() == 0)
               continue;
            auto it = es[i].map.begin();
            std::advance(it, g.range(0, int(es[i].map.size()) - 1));
            s += it->first;
         }
         auto m = segs_of(es[which]);
         if (!m.count(-s)) {
            if (!m.empty() && g.chance(70)) {
               auto it = m.begin();
               std::advance(it, g.range(0, int(m.size()) - 1));
               m.erase(it);
            }
            m[-s] = Size(g.range(1, 3));
         }
         es[which] = make_edge(m, arrow_of(es[which]));
      }
   }
   inline std::vector<Edge> random_edges(Rng& g, int rank, int maxseg = 3, int maxdim = 3, size_t maxvol = 200, bool nonempty = true) {
      if (zero_dims && g.chance(50)) {
         nonempty = false;
      }
      for (int tries = 0;; tries++) {
         std::vector<Edge> es;
         for (int i = 0; i < rank; i++) {
            es.push_back(random_edge(g, maxseg, maxdim));
         }
         if (nonempty && rank) {
            make_compatible(g, es, size_t(g.range(0, rank - 1)));
         }
         if (volume(es) <= maxvol && combos(es) <= 250 && (!nonempty || rank == 0 || volume(es) > 0)) {
            return es;
         }
         if (tries > 20) {
            maxdim = std::max(1, maxdim - 1);
         }
         if (tries > 40) {
            maxseg = std::max(1, maxseg - 1);
         }
         if (tries > 200) {
            nonempty = false;
            maxvol = 100000;
         }
      }
   }
   inline std::vector<Name> name_pool(const char* prefix, int n) {
      std::vector<Name> r;
      for (int i = 0; i < n; i++) {
         r.push_back(Name(std::string(prefix) + std::to_string(i)));
      }
      return r;
   }
   template<typename V = Scalar>
   V random_value(Rng& g, int m) {
      if constexpr (TAT::is_complex_v<V>) {
         auto a = Real(g.range(-m, m));
         auto b = Real(g.range(-m, m));
         return V(a, b);
      } else {
         return V(g.range(-m, m));
      }
   }
   inline double magnitude(const T& t) {
      double r = 0;
      for (const auto& [_, b] : t.core->blocks) {
         for (const auto& v : b) {
            r = std::max(r, double(std::abs(v)));
         }
      }
      return r;
   }
   inline size_t volume(const T& t) {
      size_t r = 0;
      for (const auto& [_, b] : t.core->blocks) {
         r += b.size();
      }
      return r;
   }
   inline const char* kind_name() {
      if constexpr (is_no)
         return "No";
      else if constexpr (std::is_same_v<Sym, TAT::Z2Symmetry>)
         return "Z2";
      else if constexpr (std::is_same_v<Sym, TAT::U1Symmetry>)
         return "U1";
      else if constexpr (std::is_same_v<Sym, TAT::FermiSymmetry>)
         return "Fermi";
      else if constexpr (std::is_same_v<Sym, TAT::FermiZ2Symmetry>)
         return "FermiZ2";
      else
         return "FermiU1";
   }
} // namespace h
