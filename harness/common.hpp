// Shared by the drivers: random numbers, logging, the projection of real
// tensors to the abstract state of the specification.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unistd.h>
#include <vector>

namespace h {
   // splitmix64: identical everywhere
   struct Rng {
      uint64_t s;
      explicit Rng(uint64_t seed) : s(seed ^ 0x5851F42D4C957F2Dull) {
         s = next() ^ (seed << 32); // neighbouring seeds must not give shifted copies of one stream
         s = next();
      }
      uint64_t next() {
         uint64_t z = (s += 0x9E3779B97F4A7C15ull);
         z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
         z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
         return z ^ (z >> 31);
      }
      int range(int lo, int hi) { // inclusive
         return lo + int(next() % uint64_t(hi - lo + 1));
      }
      bool chance(int percent) {
         return range(0, 99) < percent;
      }
      template<typename V>
      void shuffle(V& v) {
         for (int i = int(v.size()) - 1; i > 0; i--) {
            std::swap(v[i], v[range(0, i)]);
         }
      }
      template<typename V>
      auto& pick(V& v) {
         return v[range(0, int(v.size()) - 1)];
      }
   };

   // ---- logging: one JSON object per line, written through at once so that a
   // crash loses nothing; the operation in progress is remembered for the
   // signal handler
   inline int log_fd = 1;
   inline char current_op[64] = "none";
   inline void write_all(const std::string& s) {
      size_t off = 0;
      while (off < s.size()) {
         auto n = ::write(log_fd, s.data() + off, s.size() - off);
         if (n <= 0) {
            _exit(9);
         }
         off += size_t(n);
      }
   }
   inline void on_signal(int sig) {
      char buf[256];
      const char* kind = sig == SIGALRM ? "hang" : "crash";
      int n = snprintf(buf, sizeof buf, "{\"op\":\"%s\",\"in\":\"%s\",\"sig\":%d}\n", kind, current_op, sig);
      if (::write(log_fd, buf, size_t(n)) < 0) {
      }
      _exit(0);
   }
   inline void install(const char* path, int seconds) {
      if (path) {
         log_fd = ::open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
         if (log_fd < 0) {
            _exit(8);
         }
      }
      for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
         signal(s, on_signal);
      }
      alarm(unsigned(seconds));
   }
   inline void op_begin(const char* name) {
      strncpy(current_op, name, sizeof current_op - 1);
   }

   inline std::string quote(const std::string& s) {
      std::string r = "\"";
      for (unsigned char c : s) {
         if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
         } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
         } else {
            r += char(c);
         }
      }
      return r + "\"";
   }
   inline std::string num(long long v) {
      return std::to_string(v);
   }
   template<typename C, typename F>
   std::string list(const C& c, F&& f) {
      std::string r = "[";
      bool first = true;
      for (const auto& x : c) {
         if (!first) {
            r += ',';
         }
         first = false;
         r += f(x);
      }
      return r + "]";
   }
   inline std::string bools(bool b) {
      return b ? "1" : "0";
   }
} // namespace h
