// Lattices as states: conversions between the representations keep the state, saving and loading keeps everything, and the exact
// lattice computes expectation values and powers of (a - H) by definition.
#include "lattice.hpp"
using Exact = square::ExactLattice<T>;
using Simple = square::SimpleUpdateLattice<T>;
using Sampling = square::SamplingGradientLattice<T>;
static int M, N, d;
static const int shape[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}, {1, 5}};

static Operator make_operator(int body, int kind) { // symmetric
   std::vector<Name> names;
   std::vector<Size> dims;
   for (int i = 0; i < body; i++) {
      names.push_back("O" + std::to_string(i));
      names.push_back("I" + std::to_string(i));
      dims.push_back(d);
      dims.push_back(d);
   }
   if (kind % 2) std::reverse(names.begin(), names.end());
   Tensor t(names, dims);
   t.zero();
   int size = power(d, body);
   for (int a = 0; a < size; a++)
      for (int b = 0; b < size; b++) {
         std::map<Name, Size> at;
         int x = a, y = b;
         for (int i = 0; i < body; i++) {
            at["I" + std::to_string(i)] = x % d;
            at["O" + std::to_string(i)] = y % d;
            x /= d;
            y /= d;
         }
         int lo = std::min(a, b), hi = std::max(a, b);
         t.at(at) = T(Real(sequence(kind * 1000 + lo * 31 + hi)));
      }
   return std::make_shared<const Tensor>(std::move(t));
}
static State exact_state(const Exact& e) {
   State s(power(d, M * N));
   mc::check(int(e.vector.names.size()) == M * N, "the exact state has another number of edges");
   for (int k = 0; k < int(s.size()); k++) {
      auto c = spins(M, N, d, k);
      std::map<std::string, int> at;
      for (int i = 0; i < M; i++)
         for (int j = 0; j < N; j++) at["P-" + std::to_string(i) + "-" + std::to_string(j)] = c[i][j];
      for (auto& n : e.vector.names) mc::check(at.count(static_cast<const std::string&>(n)), "the exact state has an edge that is no site");
      s[k] = wide(element(e.vector, at));
   }
   return s;
}
static State simple_state(const Simple& l) {
   auto n = Network(l.lattice);
   for (auto& [where, s] : l.environment) {
      auto [direction, i, j] = where;
      std::vector<double> values;
      for (auto& [q, v] : s.value)
         for (auto x : v) values.push_back(x);
      auto& t = n.site[i][j];
      for (int a = 0; a < t.l; a++)
         for (int b = 0; b < t.r; b++)
            for (int c = 0; c < t.u; c++)
               for (int e = 0; e < t.d; e++)
                  for (int f = 0; f < t.p; f++) t.data[(((a * t.r + b) * t.u + c) * t.d + e) * t.p + f] *= values[direction == 'R' ? b : e];
   }
   return state_of(n, d);
}
static void environments(Simple& l, int which) {
   int k = 0;
   for (int i = 0; i < M; i++)
      for (int j = 0; j < N; j++)
         for (char direction : {'R', 'D'}) {
            if (direction == 'R' ? j + 1 >= N : i + 1 >= M) continue;
            k++;
            if (which == 1 && k % 2) continue;
            if (which == 0) continue;
            // singular values can only be made by a decomposition
            Size D = l.dimension_virtual;
            auto [u, s, v] = filled({"A", "B"}, {D, D}, 40 + k).svd({"A"}, "C", "E");
            l.environment[{direction, i, j}] = s;
         }
}
static Simple generic(int D, uint64_t salt) {
   Simple l(M, N, D, d);
   for (int i = 0; i < M; i++)
      for (int j = 0; j < N; j++) {
         uint64_t k = salt * 100000 + (i * 10 + j) * 1000;
         l.lattice[i][j].set([&] { return number(k++); });
      }
   return l;
}
static std::vector<Positions> all_positions() {
   std::vector<Positions> r;
   for (int i = 0; i < M; i++)
      for (int j = 0; j < N; j++) {
         r.push_back({{i, j}});
         for (int x = 0; x < M; x++)
            for (int y = 0; y < N; y++)
               if (std::pair(x, y) != std::pair(i, j)) r.push_back({{i, j}, {x, y}});
      }
   return r;
}
static void terms(square::AbstractLattice<T>& l, int set) {
   auto all = all_positions();
   Operator one = make_operator(1, 1), two = make_operator(2, 2);
   int k = 0;
   for (auto& p : all) {
      k++;
      if (set == 0) continue;
      if (set == 1 && k % 2) continue;
      l.hamiltonians[p] = set == 3 ? make_operator(int(p.size()), 10 + k) : p.size() == 1 ? one : two;
   }
}
static bool same(const Tensor& a, const Tensor& b) {
   return a.names == b.names && a.core->edges == b.core->edges && a.core->blocks == b.core->blocks;
}
static void same_terms(const square::AbstractLattice<T>& a, const square::AbstractLattice<T>& b, const char* what) {
   mc::check(a.M == b.M && a.N == b.N && a.dimension_physics == b.dimension_physics, std::string("another size: ") + what);
   mc::check(a.hamiltonians.size() == b.hamiltonians.size(), std::string("another number of terms: ") + what);
   for (auto& [p, h] : a.hamiltonians) {
      auto f = b.hamiltonians.find(p);
      mc::check(f != b.hamiltonians.end() && f->second && same(*f->second, *h), std::string("a term changed: ") + what);
   }
}
static void same_network(const square::AbstractNetworkLattice<T>& a, const square::AbstractNetworkLattice<T>& b, const char* what) {
   same_terms(a, b, what);
   mc::check(a.dimension_virtual == b.dimension_virtual, std::string("another dimension: ") + what);
   mc::check(a.lattice.size() == b.lattice.size(), std::string("another lattice: ") + what);
   for (size_t i = 0; i < a.lattice.size(); i++) {
      mc::check(a.lattice[i].size() == b.lattice[i].size(), std::string("another lattice: ") + what);
      for (size_t j = 0; j < a.lattice[i].size(); j++) mc::check(same(a.lattice[i][j], b.lattice[i][j]), std::string("a tensor changed: ") + what);
   }
}
static void conversions() {
   int which = mc::choose(10, "lattice");
   M = shape[which][0];
   N = shape[which][1];
   d = 2 + (M * N <= 4 ? mc::choose(2, "spins") : 0);
   int D = 1 + mc::choose(3, "bond dimension");
   if (M * N > 4 && D > 2) mc::skip();
   int env = mc::choose(3, "environments");
   int set = mc::choose(4, "terms");
   mc::commit();
   auto l = generic(D, 1);
   environments(l, env);
   terms(l, set);
   auto want = simple_state(l);
   Exact e(l);
   same_terms(l, e, "simple to exact");
   mc::check(proportional(exact_state(e), want), "simple to exact changes the state");
   Sampling s(l, 9);
   same_terms(l, s, "simple to sampling");
   mc::check(s.dimension_cut == 9 && s.dimension_virtual == l.dimension_virtual, "simple to sampling changes the dimensions");
   mc::check(proportional(state_of(Network(s.lattice), d), want), "simple to sampling changes the state");
   Exact e2(s);
   same_terms(l, e2, "sampling to exact");
   mc::check(proportional(exact_state(e2), want), "sampling to exact changes the state");
   Simple b(s);
   same_network(s, b, "sampling to simple");
   mc::check(b.environment.empty() && proportional(simple_state(b), want), "sampling to simple changes the state");
   mc::check(proportional(simple_state(l), want), "a conversion changed its argument");
   mc::state(mc::mix(which * 100 + D * 10 + d, env * 4 + set));
}
template<typename L, typename F>
static void round_trip(const L& l, F&& target, const std::function<void(const L&, const L&, const char*)>& compare) {
   int how = mc::choose(4, "way to store");
   static const char* ways[] = {"saved and loaded", "two in one stream", "copied", "assigned"};
   if (how == 0) {
      std::stringstream s;
      s < l;
      auto t = target();
      s > t;
      compare(l, t, ways[how]);
      mc::check(s.peek() == EOF, "loading did not read everything");
   } else if (how == 1) {
      std::stringstream s;
      s < TAT::fast_name_dataset < l < l;
      auto saved = TAT::fast_name_dataset;
      auto t = target(), u = target();
      s > TAT::fast_name_dataset > t > u;
      mc::check(TAT::fast_name_dataset.id_to_name == saved.id_to_name, "the table of names changed");
      compare(l, t, ways[how]);
      compare(l, u, ways[how]);
   } else if (how == 2) {
      L t(l);
      compare(l, t, ways[how]);
      L u(std::move(t));
      compare(l, u, "moved");
   } else {
      auto t = target();
      t = l;
      compare(l, t, ways[how]);
      auto u = target();
      u = std::move(t);
      compare(l, u, "move-assigned");
   }
}
static void persistence() {
   int which = mc::choose(6, "lattice");
   M = shape[which][0];
   N = shape[which][1];
   d = 2 + mc::choose(2, "spins");
   int D = 1 + mc::choose(2, "bond dimension");
   int env = mc::choose(3, "environments");
   int set = mc::choose(4, "terms");
   mc::commit();
   auto l = generic(D, 1);
   environments(l, env);
   terms(l, set);
   bool used = mc::flip("target in use");
   int kind = mc::choose(3, "kind of lattice");
   auto fill = [&](auto& t) {
      t.hamiltonians[{{0, 1}, {0, 0}}] = make_operator(2, 77);
      t.hamiltonians[{{7, 7}}] = make_operator(1, 77);
   };
   if (kind == 0) {
      round_trip<Simple>(
            l,
            [&] {
               if (!used) return Simple();
               Simple t(2, 3, 2, 3);
               fill(t);
               t.environment[{'R', 5, 5}] = {};
               return t;
            },
            [](const Simple& a, const Simple& b, const char* what) {
               same_network(a, b, what);
               mc::check(a.environment.size() == b.environment.size(), std::string("other environments: ") + what);
               for (auto& [p, s] : a.environment) {
                  auto f = b.environment.find(p);
                  mc::check(f != b.environment.end() && f->second.value == s.value, std::string("an environment changed: ") + what);
               }
            });
   } else if (kind == 1) {
      Sampling s(l, 7);
      int c = mc::choose(3, "configuration");
      if (c) s.initialize_spin(spins(M, N, d, c * 5 % power(d, M * N)));
      if (c == 2) s.spin.set({0, 0}, -1); // one site unset
      round_trip<Sampling>(
            s,
            [&] {
               if (!used) return Sampling();
               Sampling t(2, 3, 2, 5, 3);
               fill(t);
               t.initialize_spin([](int, int) { return 1; });
               return t;
            },
            [&](const Sampling& a, const Sampling& b, const char* what) {
               if (std::string(what).find("move") == std::string::npos) same_network(a, b, what);
               else same_network(s, b, what);
               mc::check(b.dimension_cut == 7, std::string("another cut: ") + what);
               mc::check(b.spin.configuration == s.spin.configuration, std::string("another configuration: ") + what);
               mc::check(b.spin.owner == &b, std::string("the configuration belongs to another lattice: ") + what);
               if (c == 1) mc::check(close(wide(b.spin()), Network(s.lattice).value(s.spin.configuration), 0.001), std::string("another amplitude: ") + what);
            });
   } else {
      Exact e(l);
      round_trip<Exact>(
            e,
            [&] {
               if (!used) return Exact();
               Exact t(2, 3, 3);
               fill(t);
               return t;
            },
            [&](const Exact& a, const Exact& b, const char* what) {
               same_terms(e, b, what);
               mc::check(same(e.vector, b.vector), std::string("another state: ") + what);
            });
   }
   mc::state(mc::mix(which * 100 + D * 10 + d, env * 4 + set + kind * 100));
}
static void exact() {
   int which = mc::choose(9, "lattice");
   M = shape[which][0];
   N = shape[which][1];
   d = 2 + (M * N <= 4 ? mc::choose(2, "spins") : 0);
   int set = 1 + mc::choose(3, "terms");
   int steps = mc::choose(4, "steps");
   double a = mc::choose(3, "shift") * 2 - 2; // only its absolute value counts
   a += 0.3;
   mc::commit();
   Exact e(M, N, d);
   uint64_t k = 17;
   e.vector.set([&] { return number(k++); });
   terms(e, set);
   auto s = exact_state(e);
   auto energy = e.update(steps, Real(a));
   double shift = std::abs(a) * M * N, last = 0;
   for (int i = 0; i < steps; i++) {
      State r(s.size());
      for (size_t x = 0; x < s.size(); x++) r[x] = shift * s[x];
      for (auto& [p, h] : e.hamiltonians) {
         auto f = apply(s, M, N, d, p, *h);
         for (size_t x = 0; x < s.size(); x++) r[x] -= f[x];
      }
      double largest = 0;
      for (auto& x : r) largest = std::max(largest, std::abs(x));
      for (auto& x : r) x /= largest;
      last = (shift - largest) / (M * N);
      s = r;
   }
   mc::check(proportional(exact_state(e), s), "the exact update does not apply a - H");
   if (steps > 0) mc::check(std::abs(double(energy) - last) <= 100 * tolerance() * (1 + std::abs(last)), "the exact update reports another energy");
   // expectation values
   auto n = std::real(dot(s, s));
   auto now = exact_state(e);
   auto scale = std::real(dot(now, now));
   mc::check(std::abs(double(e.denominator()) / scale - 1) < 1e-6 + tolerance(), "wrong square of the norm");
   double total = 0;
   for (auto& [p, h] : e.hamiltonians) {
      auto value = std::real(dot(s, apply(s, M, N, d, p, *h))) / n;
      total += value;
      mc::check(std::abs(double(e.observe(p, *h, true)) - value) <= 100 * tolerance() * (1 + std::abs(value)), "wrong expectation value");
      mc::check(std::abs(double(e.observe(p, *h, false)) - value * scale) <= 100 * tolerance() * (1 + std::abs(value * scale)), "wrong expectation value without norm");
   }
   mc::check(std::abs(double(e.observe_energy()) - total / (M * N)) <= 100 * tolerance() * (1 + std::abs(total)), "wrong energy");
   mc::state(mc::mix(which * 100 + d, set * 100 + steps * 10 + int(a + 5)));
}
// terms on all sites and bonds
static void setters() {
   M = mc::choose(5, "rows");
   N = mc::choose(5, "columns");
   d = 2;
   mc::commit();
   square::AbstractLattice<T> l(M, N, d);
   auto o = make_operator(1, 1), h = make_operator(2, 2), v = make_operator(2, 3);
   std::map<Positions, Operator> want;
   auto compare = [&] { mc::check(l.hamiltonians == want, "terms are not where they belong"); };
   int order = mc::choose(6, "order");
   std::vector<int> sequence{0, 1, 2};
   for (int i = 0; i < order; i++) std::next_permutation(sequence.begin(), sequence.end());
   for (int k : sequence) {
      if (k == 0) l.set_all_site(o);
      if (k == 1) l.set_all_horizontal_bond(h);
      if (k == 2) l.set_all_vertical_bond(v);
      for (int i = 0; i < M; i++)
         for (int j = 0; j < N; j++) {
            if (k == 0) want[{{i, j}}] = o;
            if (k == 1 && j + 1 < N) want[{{i, j}, {i, j + 1}}] = h;
            if (k == 2 && i + 1 < M) want[{{i, j}, {i + 1, j}}] = v;
         }
      compare();
   }
   using C = square::Common<T>;
   // spin operators: commutation relations through their matrices
   auto x = C::Sx(), z = C::Sz();
   auto m = [](auto& t, int a, int b) { return std::complex<double>(t->const_at({{"I0", Size(a)}, {"O0", Size(b)}})); };
   auto y = C::Sy();
   for (int a = 0; a < 2; a++)
      for (int b = 0; b < 2; b++) {
         std::complex<double> xy = 0, square_sum = 0;
         for (int c = 0; c < 2; c++) {
            xy += m(x, a, c) * m(y, c, b) - m(y, a, c) * m(x, c, b);
            square_sum += m(x, a, c) * m(x, c, b) + m(y, a, c) * m(y, c, b) + m(z, a, c) * m(z, c, b);
         }
         mc::check(std::abs(xy - std::complex<double>(0, 1) * m(z, a, b)) < 1e-6, "spin operators do not commute as they should");
         mc::check(std::abs(square_sum - (a == b ? 0.75 : 0.)) < 1e-6, "the square of the spin is wrong");
      }
   for (int a = 0; a < 4; a++)
      for (int b = 0; b < 4; b++) {
         auto at = [&](const std::shared_ptr<const Tensor>& t) { return wide(t->const_at({{"I0", Size(a % 2)}, {"I1", Size(a / 2)}, {"O0", Size(b % 2)}, {"O1", Size(b / 2)}})); };
         auto two = [&](auto& s) { return m(s, a % 2, b % 2) * m(s, a / 2, b / 2); };
         mc::check(std::abs(at(C::SxSx()) - two(x)) < 1e-6 && std::abs(at(C::SySy()) - two(y)) < 1e-6 && std::abs(at(C::SzSz()) - two(z)) < 1e-6, "a product of spin operators is wrong");
         mc::check(std::abs(at(C::SS()) - two(x) - two(y) - two(z)) < 1e-6, "the scalar product of spins is wrong");
      }
}
void body() {
   switch (mc::choose(4, "part")) {
      case 0: return conversions();
      case 1: return persistence();
      case 2: return exact();
      case 3: return setters();
   }
}
int main(int argc, char** argv) { return mc::main(argc, argv, body); }
