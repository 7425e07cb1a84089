// C15: random histories of interned names.
//   name_driver FAMILY SEED COUNT LOGFILE [START]
#include <TAT/TAT.hpp>
#include <sys/wait.h>

#include "common.hpp"
using namespace h;
using Name = TAT::FastName;
using TAT::operator<;
using TAT::operator>;
using TAT::operator>>;
static std::string head(const char* op) {
   op_begin(op);
   return std::string("{\"op\":\"") + op + "\"";
}
static void emit(const std::string& s) {
   write_all(s + "}\n");
}
static std::string kv(const char* k, const std::string& v) {
   return std::string(",\"") + k + "\":" + v;
}
static std::string hex(const std::string& s) {
   std::string r = "\"x";
   for (unsigned char c : s) {
      char b[4];
      snprintf(b, sizeof b, "%02x", c);
      r += b;
   }
   return r + "\"";
}
static std::string printed(const Name& n) {
   std::stringstream out;
   TAT::NameTraits<Name>::print(out, n);
   return out.str();
}
static std::string cmp(const Name& a, const Name& b) {
   return "[" + bools(a == b) + "," + bools(a != b) + "," + bools(a < b) + "," + bools(a > b) + "," + bools(a <= b) + "," + bools(a >= b) + "]";
}
static bool plain(const std::string& s) {
   return std::all_of(s.begin(), s.end(), [](char c) { return ' ' < c && c < '\x7f' && c != ',' && c != '[' && c != ']'; });
}
static std::string word(Rng& g) {
   static const char* some[] = {"", "a", "b", "aa", "ab", "A", "Left", "Right", "left", "Phy", "0", "1", "2", "3", "10", "17", ",SVD_U", ",SVD_V",
                                ",Contract_0", ",Exp_2", "a b", "a,b", "[", "]", "a]", "\t", "\n", "\x80\xff", "Phy0_0", "Phy0_00"};
   if (g.chance(60)) {
      return some[g.range(0, int(sizeof some / sizeof *some) - 1)];
   }
   std::string r;
   int n = g.chance(5) ? g.range(20, 300) : g.range(1, 4);
   for (int i = 0; i < n; i++) {
      r += char(g.chance(90) ? "abcAB01_"[g.range(0, 7)] : g.range(0, 255));
   }
   return r;
}
struct Case {
   Rng& g;
   std::vector<Name> names;
   std::vector<std::string> words;
   void add(const Name& n, const std::string& s) {
      std::string conv = static_cast<const std::string&>(n);
      emit(head("name") + kv("str", hex(s)) + kv("conv", hex(conv)) + kv("text", hex(printed(n))) +
           kv("cmp", list(names, [&](const Name& o) { return cmp(n, o); })));
      names.push_back(n);
      words.push_back(s);
   }
   std::string choose() {
      return !words.empty() && g.chance(40) ? g.pick(words) : word(g);
   }
   void step() {
      int what = g.range(0, 99);
      op_begin("name");
      if (what < 35) {
         std::string s = choose();
         add(Name(s), s);
      } else if (what < 50) {
         std::string s = choose();
         s = s.substr(0, s.find('\0'));
         add(Name(s.c_str()), s);
      } else if (what < 60) {
         // read from text, one name or a list
         int n = g.range(1, 4);
         std::vector<std::string> ws;
         for (int i = 0; i < n; i++) {
            std::string s = choose();
            ws.push_back(plain(s) ? s : "w");
            if (ws.back().empty() && n == 1) {
               ws.back() = "e";
            }
         }
         std::stringstream in;
         in << '[';
         for (int i = 0; i < n; i++) {
            in << (i ? "," : "") << ws[size_t(i)];
         }
         in << ']';
         std::vector<Name> v;
         in >> v;
         if (int(v.size()) != n) {
            emit(head("crash"));
            _exit(0);
         }
         for (int i = 0; i < n; i++) {
            add(v[size_t(i)], ws[size_t(i)]);
         }
      } else if (what < 70 && !names.empty()) {
         // through a binary stream
         std::vector<Name> v, w;
         std::vector<std::string> ws;
         for (int i = g.range(1, 4); i > 0; i--) {
            size_t k = size_t(g.range(0, int(names.size()) - 1));
            v.push_back(names[k]);
            ws.push_back(words[k]);
         }
         std::stringstream s;
         s < v;
         s > w;
         if (v.size() != w.size()) {
            emit(head("crash"));
            _exit(0);
         }
         for (size_t i = 0; i < w.size(); i++) {
            add(w[i], ws[i]);
         }
      } else if (what < 75) {
         // many others
         int n = g.chance(20) ? g.range(500, 5000) : g.range(1, 100);
         std::string base = word(g);
         for (int i = 0; i < n; i++) {
            Name x(base + std::to_string(i));
            (void)x;
         }
         emit(head("bulk") + kv("n", num(n)));
      } else if (what < 80) {
         Name copy, other("other");
         if (!names.empty()) {
            size_t k = size_t(g.range(0, int(names.size()) - 1));
            copy = names[k];
            other = std::move(copy);
            add(other, words[k]);
         } else {
            add(copy, "");
         }
      } else if (what < 84) {
         // the program's own table written and read again
         op_begin("table");
         std::string d = TAT::dump_fast_name_dataset();
         TAT::load_fast_name_dataset(d);
         emit(head("table") + kv("n", num(long(d.size()))));
      } else if (!names.empty()) {
         size_t a = size_t(g.range(0, int(names.size()) - 1)), b = size_t(g.range(0, int(names.size()) - 1));
         op_begin("recheck");
         std::string conv = static_cast<const std::string&>(names[a]);
         emit(head("recheck") + kv("a", num(long(a) + 1)) + kv("b", num(long(b) + 1)) + kv("conv", hex(conv)) + kv("cmp", cmp(names[a], names[b])));
      }
   }
   // a process that starts afresh, takes over the table and goes on
   void other_process(const std::string& data) {
      std::stringstream in(data);
      in > TAT::fast_name_dataset;
      std::vector<Name> v;
      in > v;
      emit(head("restore") + kv("convs", list(v, [](const Name& n) { return hex(static_cast<const std::string&>(n)); })));
      names = v;
      int n = g.range(3, 12);
      for (int i = 0; i < n; i++) {
         step();
      }
   }
};
static void run(Rng& g) {
   int fd[2];
   if (pipe(fd)) {
      _exit(7);
   }
   bool two = g.chance(50);
   Case c{g, {}, {}};
   pid_t second = 0;
   if (two && (second = fork()) == 0) {
      // the process that loads: has only the names the library itself makes
      close(fd[1]);
      std::string data;
      char buf[65536];
      for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) {
         data.append(buf, size_t(k));
      }
      if (data.empty()) {
         _exit(0);
      }
      // words travel in front, so that both sides agree on them
      std::stringstream in(data);
      std::vector<std::string> ws;
      TAT::Size n;
      in > n;
      for (TAT::Size i = 0; i < n; i++) {
         std::string w;
         in > w;
         ws.push_back(w);
      }
      c.words = ws;
      std::string rest((std::istreambuf_iterator<char>(in)), {});
      alarm(60);
      c.other_process(rest);
      _exit(0);
   }
   int n = g.range(5, 25);
   for (int i = 0; i < n; i++) {
      c.step();
   }
   close(fd[0]);
   if (two) {
      emit(head("save"));
      std::stringstream out;
      TAT::Size k = c.words.size();
      out < k;
      for (auto& w : c.words) {
         out < w;
      }
      out < TAT::fast_name_dataset;
      out < c.names;
      std::string d = out.str();
      size_t off = 0;
      signal(SIGPIPE, SIG_IGN);
      while (off < d.size()) {
         auto w = write(fd[1], d.data() + off, d.size() - off);
         if (w <= 0) {
            break;
         }
         off += size_t(w);
      }
      close(fd[1]);
      int st;
      waitpid(second, &st, 0);
   }
   close(fd[1]);
}
int main(int argc, char** argv) {
   if (argc < 5) {
      return 2;
   }
   uint64_t seed = strtoull(argv[2], nullptr, 10);
   int count = atoi(argv[3]);
   int start = argc > 5 ? atoi(argv[5]) : 0;
   install(argv[4], 30);
   emit(head("meta"));
   for (int i = start; i < count; i++) {
      write_all("{\"op\":\"begin\",\"i\":" + num(i) + "}\n");
      pid_t p = fork();
      if (p == 0) {
         alarm(60);
         Rng g(seed * 1000003u + uint64_t(i));
         run(g);
         _exit(0);
      }
      alarm(100);
      int st;
      waitpid(p, &st, 0);
   }
   write_all("{\"op\":\"end\"}\n");
   return 0;
}
