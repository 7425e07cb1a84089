// C13, C14: a stream is a queue of objects.  Objects are projected with their
// exact bits (binary) or their printed digits (text).
#include <cinttypes>
namespace io {
   static bool text = false;
   static int digits = 6;
   template<typename R>
   std::string real(R v) {
      char buf[64];
      if (text) {
         if (v == 0) {
            return "\"0\"";
         }
         snprintf(buf, sizeof buf, "\"%.*g\"", digits, double(v));
      } else {
         if constexpr (sizeof(R) == 4) {
            uint32_t u;
            memcpy(&u, &v, 4);
            snprintf(buf, sizeof buf, "\"%08" PRIx32 "\"", u);
         } else {
            uint64_t u;
            memcpy(&u, &v, 8);
            snprintf(buf, sizeof buf, "\"%016" PRIx64 "\"", u);
         }
      }
      return buf;
   }
   template<typename V>
   std::string value(const V& v) {
      if constexpr (TAT::is_complex_v<V>) {
         return "[" + real(v.real()) + "," + real(v.imag()) + "]";
      } else {
         return real(v);
      }
   }
   template<typename B>
   std::string values(const B& b) {
      return list(b, [](const auto& v) { return value(v); });
   }
   template<typename Ten>
   std::string proj(const Ten& t) {
      std::string keys = "[", vals = "[";
      bool first = true;
      for (const auto& [k, b] : t.core->blocks) {
         if (!first) {
            keys += ',';
            vals += ',';
         }
         first = false;
         keys += list(k, [](const auto& s) { return j(s); });
         vals += values(b);
      }
      bool idx = t.name_to_index.size() == t.names.size();
      for (size_t i = 0; i < t.names.size() && idx; i++) {
         auto f = t.name_to_index.find(t.names[i]);
         idx = f != t.name_to_index.end() && size_t(f->second) == i;
      }
      return "{\"kind\":\"tensor\",\"names\":" + jnames(t.names) + ",\"edges\":" + list(t.core->edges, [](const auto& e) { return jedge(e); }) +
             ",\"keys\":" + keys + "],\"vals\":" + vals + "],\"idx\":" + bools(idx) + "}";
   }
   using S = T::SingularType;
   template<typename X>
   std::string proj_s(const X& s) {
#ifdef TAT_USE_SINGULAR_MATRIX
      return proj(s);
#else
      std::string r = "{\"kind\":\"singular\",\"v\":[";
      bool first = true;
      for (const auto& [k, v] : s.value) {
         r += std::string(first ? "" : ",") + "[" + j(k) + "," + values(v) + "]";
         first = false;
      }
      return r + "]}";
#endif
   }
   inline std::string proj(const Name& n) {
      return "{\"kind\":\"name\",\"v\":" + jn(n) + "}";
   }
   inline std::string proj(const Edge& e) {
      return "{\"kind\":\"edge\",\"v\":" + jedge(e) + "}";
   }
   inline std::string proj(const std::vector<Name>& e) {
      return "{\"kind\":\"names\",\"v\":" + jnames(e) + "}";
   }
   inline std::string proj(const Sym& e) {
      return "{\"kind\":\"symmetry\",\"v\":" + j(e) + "}";
   }
   inline std::string proj_str(const std::string& e) {
      return "{\"kind\":\"string\",\"v\":" + quote(e) + "}";
   }
   inline std::string proj_c(int c) {
      return "{\"kind\":\"char\",\"v\":" + num(c) + "}";
   }
   template<typename R>
   R any_real(Rng& g) {
      int k = g.range(0, 11);
      if (text) {
         // finite numbers of every magnitude the type has
         if (k == 0) {
            return R(0);
         } else if (k <= 3) {
            return R(g.range(-50, 50));
         } else if (k <= 6) {
            return R(double(int64_t(g.next() >> 20)) * 1e-9 * (g.chance(50) ? -1 : 1));
         }
         int lim = sizeof(R) == 4 ? 30 : 250;
         return R(std::ldexp(double(g.range(1, 1 << 30)) * (g.chance(50) ? -1 : 1), g.range(-3 * lim, 3 * lim) - 30));
      }
      if (k == 0) {
         return R(-0.0);
      } else if (k == 1) {
         return std::numeric_limits<R>::infinity();
      } else if (k == 2) {
         return std::numeric_limits<R>::quiet_NaN();
      } else if (k == 3) {
         return std::numeric_limits<R>::denorm_min() * R(g.range(1, 1000));
      } else if (k <= 5) {
         return R(g.range(-9, 9));
      }
      if constexpr (sizeof(R) == 4) {
         uint32_t u = uint32_t(g.next());
         R v;
         memcpy(&v, &u, 4);
         return v == v ? v : R(1.5);
      } else {
         uint64_t u = g.next();
         R v;
         memcpy(&v, &u, 8);
         return v == v ? v : R(1.5);
      }
   }
   template<typename V = Scalar>
   V any_value(Rng& g) {
      if constexpr (TAT::is_complex_v<V>) {
         auto a = any_real<Real>(g);
         auto b = any_real<Real>(g);
         int k = g.range(0, 5);
         if (k == 0) {
            a = 0;
         } else if (k == 1) {
            b = 0;
         }
         return V(a, b);
      } else {
         return any_real<V>(g);
      }
   }
   inline Name any_name(Rng& g, bool raw) {
      static const char* odd[] = {"a:b",  "{x}", "(1;2)", "\"q\"", "names:", "1", "-1.5e3", "a=b", "\\n", "i", "+2i", "~", "!#$%&'*;<>?@^_`|", "Left", "0"};
      int k = g.range(0, 5);
      if (k == 0) {
         return Name(std::string(odd[g.range(0, 14)]));
      } else if (k == 1) {
         return Name(std::string(size_t(g.range(1, 300)), char('a' + g.range(0, 25))) + std::to_string(g.range(0, 99)));
      } else if (k == 2 && raw) {
         std::string s;
         int n = g.range(1, 20);
         for (int i = 0; i < n; i++) {
            s += char(g.range(1, 126));
         }
         return Name(s);
      }
      return Name(std::string("n") + std::to_string(g.range(0, 400)));
   }
   inline Names any_names(Rng& g, int n, bool raw) {
      Names r;
      while (int(r.size()) < n) {
         auto x = any_name(g, raw);
         if (std::find(r.begin(), r.end(), x) == r.end()) {
            r.push_back(x);
         }
      }
      return r;
   }
   inline T any_tensor(Rng& g, bool raw) {
      int rank = g.range(0, 4);
      auto es = random_edges(g, rank, 4, 3, 60, g.chance(75));
      auto ns = any_names(g, rank, raw);
      op_begin("make");
      auto t = T(ns, es);
      for (auto& [k, b] : t.core->blocks) {
         for (auto& v : b) {
            v = any_value(g);
         }
      }
      return t;
   }
   inline S any_singular(Rng& g, bool raw) {
#ifdef TAT_USE_SINGULAR_MATRIX
      return any_tensor(g, raw);
#else
      S s;
      auto m = random_segs(g, 4, 4);
      if (!is_no && g.chance(10)) {
         m.clear();
      }
      for (auto& [k, d] : m) {
         for (size_t i = 0; i < d; i++) {
            s.value[k].push_back(any_real<Real>(g));
         }
      }
      return s;
#endif
   }
   // what the text of a tensor says, read without the library
   inline std::string strip(const std::string& s) {
      std::string r;
      for (size_t i = 0; i < s.size(); i++) {
         if (s[i] == '\x1b') {
            while (i < s.size() && s[i] != 'm') {
               i++;
            }
         } else {
            r += s[i];
         }
      }
      return r;
   }
   // all numbers between '[' and ']' in the last member of the text, per block
   inline std::string printed_numbers(const std::string& s) {
      auto t = strip(s);
      auto p = t.rfind("blocks");
      std::vector<std::vector<std::string>> groups;
      for (size_t i = p == std::string::npos ? t.size() : p; i < t.size(); i++) {
         if (t[i] == '[') {
            auto e = t.find(']', i);
            if (e == std::string::npos) {
               break;
            }
            std::vector<std::string> v;
            std::string cur;
            int par = 0;
            for (size_t q = i + 1; q < e; q++) {
               if (t[q] == '(') {
                  par++;
               }
               if (t[q] == ')') {
                  par--;
               }
               if (t[q] == ',' && par == 0) {
                  v.push_back(cur);
                  cur.clear();
               } else {
                  cur += t[q];
               }
            }
            if (e > i + 1) {
               v.push_back(cur);
            }
            groups.push_back(v);
            i = e;
         }
      }
      // with symmetry, lists of symmetries and of values alternate
      std::string r = "[";
      bool first = true;
      for (size_t i = is_no ? 0 : 1; i < groups.size(); i += is_no ? 1 : 2) {
         r += (first ? "" : ",") + list(groups[i], [](const std::string& x) {
                 double re = 0, im = 0;
                 const char* c = x.c_str();
                 char* e;
                 double v = strtod(c, &e);
                 if (*e == 'i') {
                    im = v;
                 } else {
                    re = v;
                    if (*e) {
                       im = strtod(e, &e);
                    }
                 }
                 if (is_cplx) {
                    return "[" + real(re) + "," + real(im) + "]";
                 }
                 return real(re);
              });
         first = false;
      }
      return r + "]";
   }
} // namespace io

using TAT::operator<;
using TAT::operator>;
using TAT::operator<<;
using TAT::operator>>;
struct IoObjects {
   T t;
   io::S s;
   Name n;
   Edge e;
   Names ns;
   Sym q;
   std::string str;
};

static void io_write(Rng& g, std::stringstream& st, const char* op, std::vector<int>& kinds, bool raw) {
   bool text = io::text;
   int k = g.range(0, 9);
   std::string v, extra;
   auto put = [&](const auto& x) {
      if (text) {
         if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::string>) {
            st << x;
         } else {
            st << x;
         }
      } else {
         st < x;
      }
   };
   head(op);
   if (k <= 3) {
      auto t = io::any_tensor(g, raw);
      head(op);
      v = io::proj(t);
      std::stringstream one;
      one.precision(io::digits);
      int how = g.range(0, 3);
      if (text) {
         auto before = st.str().size();
         if (how == 0 && io::digits == 6) {
            st << t.show();
         } else if (how == 1) { // without the colours
            one << t;
            st << io::strip(one.str());
         } else {
            st << t;
         }
         extra = kv("printed", io::printed_numbers(st.str().substr(before)));
      } else if (how == 0) {
         auto d = t.dump();
         st.write(d.data(), long(d.size()));
      } else if (how == 1) {
         t.meta_put(st);
         t.data_put(st);
      } else {
         st < t;
      }
      k = 0;
   } else if (k == 4) {
      auto s = io::any_singular(g, raw);
      head(op);
      v = io::proj_s(s);
      put(s);
      k = 1;
   } else if (k == 5 && !text) {
      auto n = io::any_name(g, raw);
      v = io::proj(n);
      TAT::NameTraits<Name>::write(st, n);
      k = 2;
   } else if (k == 6) {
      auto e = random_edge(g, 5, 5);
      v = io::proj(e);
      put(e);
      k = 3;
   } else if (k == 7) {
      auto n = io::any_names(g, g.range(0, 5), raw);
      v = io::proj(n);
      put(n);
      k = 4;
   } else if (k == 8 && !is_no) {
      auto pl = sym_pool();
      auto s = g.pick(pl);
      v = io::proj(s);
      put(s);
      k = 5;
   } else if (!text) {
      std::string s(size_t(g.range(0, 20)), 'x');
      for (auto& c : s) {
         c = char(g.range(1, 126));
      }
      v = io::proj_str(s);
      st < s;
      k = 6;
   } else {
      return;
   }
   kinds.push_back(k);
   emit(head(op) + kv("obj", v) + extra);
   if (text || g.chance(50)) { // what follows the object
      const char* cs = ";#\n}{ ]|:";
      char c = cs[g.range(0, 8)];
      st.put(c);
      kinds.push_back(7);
      emit(head(op) + kv("obj", io::proj_c(c)));
   }
}
static void io_read(Rng& g, std::istream& st, const char* op, int kind, IoObjects& o) {
   bool text = io::text;
   std::string v;
   auto get = [&](auto& x) {
      if (text) {
         if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::string>) {
            st >> x;
         } else {
            st >> x;
         }
      } else {
         st > x;
      }
   };
   head(op);
   auto s = guarded([&]() -> std::string {
      switch (kind) {
         case 0: {
            int how = g.range(0, 2);
            if (!text && how == 0) {
               o.t.meta_get(st);
               o.t.data_get(st);
            } else if (how == 1) {
               auto fresh = T();
               get(fresh);
               o.t = fresh;
            } else {
               get(o.t);
            }
            return io::proj(o.t);
         }
         case 1:
            get(o.s);
            return io::proj_s(o.s);
         case 2:
            TAT::NameTraits<Name>::read(st, o.n);
            return io::proj(o.n);
         case 3:
            get(o.e);
            return io::proj(o.e);
         case 4:
            get(o.ns);
            return io::proj(o.ns);
         case 5:
            get(o.q);
            return io::proj(o.q);
         case 6:
            st > o.str;
            return io::proj_str(o.str);
         default:
            return io::proj_c(st.get());
      }
   });
   op_begin(op);
   emit(head(op) + kv("obj", s.substr(0, 8) == "{\"ok\":0}" ? std::string("{\"kind\":\"error\"}") : s) + kv("good", bools(bool(st))));
}
static void io_case(Rng& g, const char* wr, const char* rd, bool raw) {
   begin();
   std::stringstream st;
   if (io::text) {
      io::digits = g.chance(40) ? (sizeof(Real) == 4 ? g.range(3, 6) : g.range(3, 15)) : 6;
      st.precision(io::digits);
   }
   IoObjects o;
   o.t = io::any_tensor(g, raw);
   T shared = o.t; // reading into a tensor must not change its copies
   auto before = io::proj(shared);
   std::vector<int> kinds;
   size_t next = 0;
   int steps = g.range(3, 8);
   for (int i = 0; i < steps; i++) {
      if (g.chance(60)) {
         io_write(g, st, wr, kinds, raw);
      }
      while (next < kinds.size() && g.chance(40)) {
         io_read(g, st, rd, kinds[next++], o);
      }
   }
   while (next < kinds.size()) {
      io_read(g, st, rd, kinds[next++], o);
   }
   head(rd);
   bool end = st.peek() == std::char_traits<char>::eof();
   emit(head("ioend") + kv("eof", bools(end)) + kv("shared", bools(io::proj(shared) == before)) + kv("of", quote(rd)));
}
static void fam_bin(Rng& g) {
   io::text = false;
   io_case(g, "binwrite", "binread", true);
}
static void fam_text(Rng& g) {
   io::text = true;
   io_case(g, "textwrite", "textread", false);
}
