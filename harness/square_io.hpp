// C22
static std::string text(double x) {
   char b[64];
   snprintf(b, sizeof b, "%a", x);
   return b;
}
static std::string text(const Ten& t) {
   std::string r = "(";
   for (auto& n : t.names) {
      r += std::string(n) + " ";
   }
   for (auto& e : t.core->edges) {
      r += num(long(e.map.begin()->second)) + " ";
   }
   for (auto& [sym, block] : t.core->blocks) {
      for (double x : block) {
         r += text(x) + " ";
      }
   }
   return r + ")";
}
static std::string text(const square::AbstractLattice<double>& x) {
   std::string r = num(x.M) + " " + num(x.N) + " " + num(long(x.dimension_physics));
   for (auto& [p, t] : x.hamiltonians) {
      r += " " + pos_json(p, 1000) + (t ? text(*t) : "null");
   }
   return r;
}
static std::string text(const square::AbstractNetworkLattice<double>& x) {
   std::string r = text(static_cast<const square::AbstractLattice<double>&>(x)) + " D " + num(long(x.dimension_virtual));
   for (auto& row : x.lattice) {
      r += " /";
      for (auto& t : row) {
         r += text(t);
      }
   }
   return r;
}
static std::string text(const square::ExactLattice<double>& x) {
   return text(static_cast<const square::AbstractLattice<double>&>(x)) + text(x.vector);
}
static std::string text(const square::SimpleUpdateLattice<double>& x) {
   std::string r = text(static_cast<const square::AbstractNetworkLattice<double>&>(x)) + " E";
   for (auto& [k, s] : x.environment) {
      r += " " + std::string(1, std::get<0>(k)) + num(std::get<1>(k)) + "," + num(std::get<2>(k));
      for (auto& [sym, v] : s.value) {
         for (double q : v) {
            r += " " + text(q);
         }
      }
   }
   return r;
}
static std::string text(const square::SamplingGradientLattice<double>& x) {
   std::string r = text(static_cast<const square::AbstractNetworkLattice<double>&>(x)) + " Dc " + num(long(x.dimension_cut)) + " " + num(long(x.spin.dimension_cut)) + " S";
   for (auto& row : x.spin.configuration) {
      r += " /";
      for (int s : row) {
         r += " " + num(s);
      }
   }
   return r + (x.spin.owner == &x ? "" : " owner");
}
static std::unique_ptr<TAT::fast_name_dataset_t> names_at_start;
static void spoil(Rng& g, square::ExactLattice<double>& x) {
   x = square::ExactLattice<double>(g.range(1, 2), g.range(1, 2), 2);
   x.set_all_site(square::Common<double>::Sz());
}
static void spoil(Rng& g, square::SimpleUpdateLattice<double>& x) {
   x = square::SimpleUpdateLattice<double>(g.range(1, 3), g.range(1, 3), 2, 2);
   x.set_all_horizontal_bond(square::Common<double>::SS());
   x.set_all_vertical_bond(square::Common<double>::SS());
   x.update(1, 0.1, 2);
}
static void spoil(Rng& g, square::SamplingGradientLattice<double>& x) {
   x = square::SamplingGradientLattice<double>(g.range(1, 3), g.range(1, 3), 2, 5, 2);
   x.set_all_site(square::Common<double>::Sx());
   x.initialize_spin([&](int i, int j) { return (i + j) % 2; });
   x.spin();
}
// the lattice goes through a file, or through another object
template<typename L>
static void hop_of(Rng& g, L& x, int percent) {
   if (!g.chance(percent)) {
      return;
   }
   const char* how[] = {"file into a used lattice", "file into a new lattice", "copy", "move", "self"};
   int k = g.range(0, 4);
   std::string a = text(x);
   auto e = head("hop");
   if (k <= 1) {
      std::stringstream s;
      std::string rest;
      {
         using TAT::operator<;
         static_cast<std::ostream&>(s) < TAT::fast_name_dataset < x;
         s << "?";
      }
      L fresh;
      if (k == 0) {
         spoil(g, x);
      }
      L& to = k == 0 ? x : fresh;
      bool other_process = g.chance(50);
      if (other_process) { // nothing but what a new process knows
         TAT::fast_name_dataset = *names_at_start;
      }
      {
         using TAT::operator>;
         static_cast<std::istream&>(s) > TAT::fast_name_dataset > to;
      }
      rest = std::string(std::istreambuf_iterator<char>(s), {});
      if (rest != "?") {
         a += " all of the file";
      }
      if (k == 1) {
         if (text(to) != a) {
            a += " (before the assignment)";
         }
         x = std::move(fresh);
      }
   } else if (k == 2) {
      L y(x);
      spoil(g, x);
      x = y;
      spoil(g, y);
   } else if (k == 3) {
      L y(std::move(x));
      x = std::move(y);
   } else {
      L& y = x;
      x = y;
   }
   std::string b = text(x);
   // what differs is only interesting when it does
   emit(e + kv("how", quote(how[k])) + kv("a", quote(a == b ? "same" : a)) + kv("b", quote(a == b ? "same" : b)));
}
static bool hopping = false;
template<typename L>
static void hop(Rng& g, L& x) {
   if (hopping) {
      hop_of(g, x, 40);
   }
}
