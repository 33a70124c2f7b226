// Sampling of a square network: sums over all configurations give expectation values, the Markov chain leaves the distribution of
// the state unchanged (its transition matrix is computed from every sequence of draws), and what is collected on the way is what
// belongs to the configurations that were visited.
#define MC_ENGINE
#include "lattice.hpp"
using Lattice = square::SamplingGradientLattice<T>;
using Exact = square::ExactLattice<T>;
using Configuration = std::vector<std::vector<int>>;
using Observers = std::map<std::string, std::map<Positions, Operator>>;

static const bool controlled = std::is_same_v<std::decay_t<decltype(square::random::engine)>, std::default_random_engine>;
static int M, N, d;
static Network network_of(const Lattice& l) { return Network(l.lattice); }

// symmetric operators of one or two bodies
static Operator make_operator(int body, int kind) {
   std::vector<Name> names;
   std::vector<Size> dims;
   // the order of the edges is not fixed
   for (int i = 0; i < body; i++) {
      names.push_back("O" + std::to_string(i));
      names.push_back("I" + std::to_string(i));
      dims.push_back(d);
      dims.push_back(d);
   }
   if (kind % 2) std::reverse(names.begin(), names.end());
   Tensor t(names, dims);
   t.zero();
   int size = power(d, body);
   auto put = [&](int a, int b, double v) {
      for (int k = 0; k < 2; k++) {
         std::map<Name, Size> at;
         int x = k ? a : b, y = k ? b : a;
         for (int i = 0; i < body; i++) {
            at["I" + std::to_string(i)] = x % d;
            at["O" + std::to_string(i)] = y % d;
            x /= d;
            y /= d;
         }
         t.at(at) = T(Real(v));
      }
   };
   switch (kind) {
      case 0: // generic
         for (int a = 0; a < size; a++)
            for (int b = 0; b <= a; b++) put(a, b, sequence(900 + a * 17 + b));
         break;
      case 1: // counts: rows without any element
         put(size - 1, size - 1, 1.5);
         break;
      case 2: // exchange of the first and the last
         put(0, size - 1, 0.75);
         break;
      case 3: // nothing
         break;
      case 4: // a chain of hops with a diagonal
         for (int a = 0; a + 1 < size; a++) put(a, a + 1, 0.5 + a);
         put(0, 0, -1);
         break;
      case 5: // middle states exchanged, the others only diagonal: an antiferromagnet
         if (size > 2) put(1, size - 2, 0.5);
         else put(0, 1, 0.5);
         put(0, 0, 0.25);
         put(size - 1, size - 1, 0.25);
         break;
   }
   return std::make_shared<const Tensor>(std::move(t));
}
static double expectation(const State& s, const Positions& p, const Tensor& o) { return std::real(dot(s, apply(s, M, N, d, p, o))) / std::real(dot(s, s)); }
// local value of an operator: sum over s' of <s|o|s'> w(s') / w(s)
static std::complex<double> local(const State& w, const Configuration& c, const Positions& p, const Tensor& o) {
   std::complex<double> r = 0;
   int n = int(p.size());
   std::vector<int> in;
   for (auto& [x, y] : p) in.push_back(c[x][y]);
   for (int k = 0; k < power(d, n); k++) {
      auto q = c;
      std::vector<int> out;
      int rest = k;
      for (auto& [x, y] : p) {
         out.push_back(rest % d);
         q[x][y] = rest % d;
         rest /= d;
      }
      r += matrix(o, in, out) * w[index_of(q, d)];
   }
   return r / w[index_of(c, d)];
}
static bool near(double a, double b) { return std::abs(a - b) <= tolerance() * (1 + std::abs(b)) * 10; }
static std::vector<Positions> all_positions() {
   std::vector<Positions> r;
   for (int i = 0; i < M; i++)
      for (int j = 0; j < N; j++) {
         r.push_back({{i, j}});
         if (j + 1 < N) {
            r.push_back({{i, j}, {i, j + 1}});
            r.push_back({{i, j + 1}, {i, j}});
         }
         if (i + 1 < M) {
            r.push_back({{i, j}, {i + 1, j}});
            r.push_back({{i + 1, j}, {i, j}});
         }
      }
   return r;
}
static std::string show(const Positions& p) {
   std::string s;
   for (auto& [x, y] : p) s += "(" + std::to_string(x) + "," + std::to_string(y) + ")";
   return s;
}
static const int shape[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}};

static Lattice generic(int D, uint64_t salt, bool zeros) {
   Lattice l(M, N, D, 200, d);
   for (int i = 0; i < M; i++)
      for (int j = 0; j < N; j++) {
         auto& t = l.lattice[i][j];
         uint64_t k = salt * 100000 + (i * 10 + j) * 1000;
         t.set([&] { return number(k++); });
         if (zeros) { // vanishes for the last spin at odd sites
            if ((i + j) % 2 == 1) {
               auto a = t.shrink({{"P", 0}}).template to<T>();
               t = a.expand({{"P", {0, Size(d)}}}).transpose(t.names);
            }
         }
      }
   return l;
}
static void initial(Lattice& l, const Configuration& c) { l.initialize_spin(c); }

// sums over all configurations
static void ergodic() {
   int which = mc::choose(8, "lattice");
   M = shape[which][0];
   N = shape[which][1];
   d = M * N <= 2 ? 2 + mc::choose(2, "spins") : 2;
   int D = 1 + mc::choose(M * N <= 3 ? 3 : 2, "bond dimension");
   bool zeros = mc::flip("configurations of amplitude zero");
   mc::commit();
   auto l = generic(D, 3, zeros);
   auto w = state_of(network_of(l), d);
   if (!(norm(w) > 1e-6)) mc::skip();
   auto positions = all_positions();
   Observers o;
   int kind = mc::choose(6, "operator");
   // one after another: what an earlier call remembers must not show in a later one
   bool energy = mc::flip("with energy");
   for (int round = 0; round < 3; round++) {
      o.clear();
      for (auto& p : positions) o["A"][p] = make_operator(int(p.size()), (kind + round) % 6);
      // the same numbers in the same storage under other names are another operator
      for (auto& p : positions)
         if (p.size() == 2) o["C"][p] = std::make_shared<const Tensor>(o["A"][p]->edge_rename({{"I0", "I1"}, {"I1", "I0"}, {"O0", "O1"}, {"O1", "O0"}}));
      if (o["C"].empty()) o.erase("C");
      auto shared1 = make_operator(1, kind);
      for (auto& p : positions)
         if (p.size() == 1) o["B"][p] = shared1;
      l.hamiltonians.clear();
      if (energy)
         for (auto& p : positions) l.hamiltonians[p] = make_operator(int(p.size()), (kind + round + 1) % 6);
      auto r = l.ergodic(o, energy);
      if (energy) o["Energy"] = l.hamiltonians;
      for (auto& [k, group] : o)
         for (auto& [p, t] : group) {
            auto want = expectation(w, p, *t);
            auto have = double(r.at(k).at(p));
            mc::check(near(have, want), [&] { return "sum over configurations of " + k + " at " + show(p) + " gives " + std::to_string(have) + ", expectation value is " + std::to_string(want); });
         }
      mc::check(r.size() == o.size(), "other observables are reported");
   }
   // the same through the exact lattice
   Exact e(l);
   for (auto& p : positions) {
      auto t = make_operator(int(p.size()), kind);
      auto want = expectation(w, p, *t);
      mc::check(near(double(e.observe(p, *t, true)), want), "the exact lattice gives another expectation value");
   }
   mc::state(mc::mix(which * 100 + D * 10 + d, kind * 4 + zeros * 2 + energy));
}
#ifndef COMPLEX_SCALAR
// amplitudes with given squares for lattices of one or two sites, or products
static Lattice with_weights(const std::vector<double>& squares) {
   if (M * N == 1) {
      Lattice l(1, 1, 1, 50, d);
      int k = 0;
      l.lattice[0][0] = Tensor({"P"}, {Size(d)}).set([&] { return T(Real((k % 2 ? -1 : 1) * std::sqrt(squares[k++]))); });
      return l;
   }
   Lattice l(M, N, d, 50, d);
   int n = d;
   auto& a = l.lattice[0][0];
   auto& b = l.lattice[M - 1][N - 1];
   bool horizontal = N == 2;
   a.zero();
   for (int s = 0; s < n; s++) a.at({{"P", Size(s)}, {horizontal ? "R" : "D", Size(s)}}) = 1;
   for (int s = 0; s < n; s++)
      for (int t = 0; t < n; t++) b.at({{horizontal ? "L" : "U", Size(s)}, {"P", Size(t)}}) = T(Real(((s + t) % 3 ? -1 : 1) * std::sqrt(squares[s + t * n])));
   return l;
}
// the transition matrix of one step, from every sequence of draws
static std::vector<double> transitions(Lattice& l, const Configuration& from, int levels) {
   std::vector<double> row(power(d, M * N));
   draws::clear();
   draws::levels = levels;
   double total = 0;
   do {
      initial(l, from);
      draws::begin();
      l.equilibrate(1);
      draws::end();
      row[index_of(l.spin.configuration, d)] += draws::weight();
      total += draws::weight();
      mc::step();
   } while (draws::next());
   mc::check(std::abs(total - 1) < 1e-9, "draws do not add up");
   return row;
}
static int hops(const Tensor& h, int body, int from) {
   int n = 0;
   auto unpack = [&](int k) {
      std::vector<int> r;
      for (int i = 0; i < body; i++) {
         r.push_back(k % d);
         k /= d;
      }
      return r;
   };
   for (int to = 0; to < power(d, body); to++)
      if (to != from && std::abs(matrix(h, unpack(from), unpack(to))) > 0) n++;
   return n;
}
static void stationary() {
   if (!controlled) mc::skip();
   static const int sizes[][3] = {{1, 1, 2}, {1, 1, 3}, {1, 2, 2}, {2, 1, 2}, {1, 2, 3}, {2, 1, 3}};
   int which = mc::choose(6, "lattice");
   bool nine = which >= 4; // one term that connects every configuration with all others
   M = sizes[which][0];
   N = sizes[which][1];
   d = sizes[which][2];
   static const std::vector<std::vector<double>> weights = {{1, 1, 1, 1}, {1, 2, 3, 6}, {6, 3, 2, 1}, {3, 2, 6, 4}, {2, 12, 4, 6}, {6, 1, 2, 3}};
   auto squares = nine ? mc::pick(std::vector<std::vector<double>>{std::vector<double>(9, 1), {1, 2, 4, 8, 1, 2, 4, 8, 4}}, "weights") : weights[mc::choose(mc::thorough() ? int(weights.size()) : 4, "weights")];
   int kind = nine ? 0 : mc::choose(6, "hamiltonian");
   std::vector<Positions> candidates;
   for (auto& p : all_positions()) candidates.push_back(p);
   // one term, or two
   auto p1 = candidates[mc::choose(int(candidates.size()), "first term")];
   int second = nine ? int(candidates.size()) : mc::choose(int(candidates.size()) + 1, "second term");
   if (nine && p1.size() == 1) mc::skip();
   mc::commit();
   auto l = with_weights(squares);
   l.hamiltonians[p1] = make_operator(int(p1.size()), kind);
   int levels = nine ? 8 : 6;
   if (second < int(candidates.size())) {
      if (candidates[second] == p1) mc::skip();
      l.hamiltonians[candidates[second]] = make_operator(int(candidates[second].size()), (kind + 2) % 6);
      levels = mc::thorough() ? 4 : 2;
   }
   int size = power(d, M * N);
   // the chain is exact on this grid only if every acceptance probability and every number of hops fits
   for (auto& [p, h] : l.hamiltonians) {
      for (int s = 0; s < size; s++) {
         auto c = spins(M, N, d, s);
         int body = int(p.size());
         auto local_index = [&](const Configuration& x) {
            int r = 0;
            for (int i = body; i-- > 0;) r = r * d + x[std::get<0>(p[i])][std::get<1>(p[i])];
            return r;
         };
         int n = hops(*h, body, local_index(c));
         if (n && levels % n) mc::skip();
         for (int k = 0; k < power(d, body); k++) {
            auto q = c;
            int rest = k;
            for (auto& [x, y] : p) {
               q[x][y] = rest % d;
               rest /= d;
            }
            int t = index_of(q, d);
            std::vector<int> a, b;
            for (auto& [x, y] : p) {
               a.push_back(c[x][y]);
               b.push_back(q[x][y]);
            }
            if (t == s || std::abs(matrix(*h, a, b)) == 0) continue;
            double accept = squares[t] / squares[s] * n / hops(*h, body, local_index(q));
            if (accept < 1 && std::abs(accept * levels - std::round(accept * levels)) > 1e-6) mc::skip();
         }
      }
   }
   double sum = 0;
   for (int s = 0; s < size; s++) sum += squares[s];
   std::vector<double> after(size);
   std::vector<std::vector<double>> rows;
   for (int s = 0; s < size; s++) {
      rows.push_back(transitions(l, spins(M, N, d, s), levels));
      for (int t = 0; t < size; t++) after[t] += squares[s] / sum * rows[s][t];
   }
   for (int t = 0; t < size; t++)
      mc::check(std::abs(after[t] - squares[t] / sum) < 1e-9, [&] { return "one step of the Markov chain changes the distribution: configuration " + std::to_string(t) + " has probability " + std::to_string(squares[t] / sum) + " before and " + std::to_string(after[t]) + " after"; });
   // a symmetric sweep is reversible
   for (int s = 0; s < size; s++)
      for (int t = 0; t < s; t++)
         mc::check(std::abs(squares[s] * rows[s][t] - squares[t] * rows[t][s]) < 1e-9 * sum, "the Markov chain is not reversible");
   // the chain gets where accepted hops lead: two proposals of a single term, accepted with positive probability
   if (l.hamiltonians.size() == 1) {
      auto& p = l.hamiltonians.begin()->first;
      auto& h = *l.hamiltonians.begin()->second;
      int body = int(p.size());
      std::vector<std::vector<double>> once(size, std::vector<double>(size));
      for (int s = 0; s < size; s++) {
         auto c = spins(M, N, d, s);
         double stay = 1;
         auto at = [&](const Configuration& x) {
            int r = 0;
            for (int i = body; i-- > 0;) r = r * d + x[std::get<0>(p[i])][std::get<1>(p[i])];
            return r;
         };
         int n = hops(h, body, at(c));
         for (int k = 0; k < power(d, body); k++) {
            auto q = c;
            int rest = k;
            std::vector<int> a, b;
            for (auto& [x, y] : p) {
               a.push_back(c[x][y]);
               b.push_back(q[x][y] = rest % d);
               rest /= d;
            }
            if (q == c || std::abs(matrix(h, a, b)) == 0) continue;
            double move = std::min(1., squares[index_of(q, d)] / squares[s] * n / hops(h, body, at(q))) / n;
            once[s][index_of(q, d)] = move;
            stay -= move;
         }
         once[s][s] = stay;
      }
      for (int s = 0; s < size; s++)
         for (int t = 0; t < size; t++) {
            double both = 0;
            for (int u = 0; u < size; u++) both += once[s][u] * once[u][t];
            if (both > 1e-9) mc::check(rows[s][t] > 0, "the Markov chain does not get where accepted hops lead");
         }
   }
   mc::state(mc::mix(which * 10 + kind, uint64_t(squares[0] * 1000 + squares[1] * 100 + second)));
   // averages of one step, started from the distribution, are expectation values
   if (!nine && (levels <= 2 || mc::thorough() || kind == 4)) {
      State w;
      w = state_of(network_of(l), d);
      Observers o;
      for (auto& p : all_positions()) o["A"][p] = make_operator(int(p.size()), (kind + 1) % 6);
      std::map<Positions, double> mean, energy;
      for (int s = 0; s < size; s++) {
         draws::clear();
         draws::levels = levels;
         do {
            initial(l, spins(M, N, d, s));
            draws::begin();
            auto r = l.markov(1, o, true, false);
            draws::end();
            auto& values = std::get<0>(r);
            for (auto& [p, v] : values.at("A")) mean[p] += squares[s] / sum * draws::weight() * double(v);
            for (auto& [p, v] : values.at("Energy")) energy[p] += squares[s] / sum * draws::weight() * double(v);
         } while (draws::next());
      }
      for (auto& [p, v] : mean) mc::check(near(v, expectation(w, p, *o["A"][p])), "averages of the Markov chain are not expectation values");
      for (auto& [p, v] : energy) mc::check(near(v, expectation(w, p, *l.hamiltonians[p])), "the energy of the Markov chain is not the expectation value");
   }
}
// what is collected along a chain belongs to the configurations that were visited
static void collected() {
   int which = mc::choose(mc::thorough() ? 8 : 6, "lattice");
   M = shape[which][0];
   N = shape[which][1];
   d = M * N <= 2 ? 2 + mc::choose(2, "spins") : 2;
   int D = 1 + mc::choose(M * N <= 4 ? 2 : 1, "bond dimension");
   int kind = mc::choose(4, "operators") + (mc::choose(2, "hamiltonian") ? 4 : 0);
   int steps = mc::pick(std::vector<int>{2, 3, 5}, "steps");
   mc::commit();
   int start = mc::choose(power(d, M * N), "start");
   auto l = generic(D, 5, false);
   auto w = state_of(network_of(l), d);
   for (auto& x : w)
      if (std::abs(x) < 1e-6) mc::skip();
   Observers o;
   static const int kinds[] = {0, 4, 5, 2};
   for (auto& p : all_positions()) {
      o["A"][p] = make_operator(int(p.size()), kind % 4 + 1);
      if (p.size() == 1 || kind < 4) l.hamiltonians[p] = make_operator(int(p.size()), kinds[kind % 4]);
   }
   bool gradient = mc::flip("gradient");
   Configuration from = spins(M, N, d, start);
   draws::clear();
   draws::levels = 7; // only one sequence of draws, of varied values
   uint64_t salt = mc::choose(3, "draws");
   std::vector<uint64_t> words;
   for (int i = 0; i < 4000; i++) words.push_back(mc::mix(salt * 4000 + i, 77));
   initial(l, from);
   draws::words = words;
   draws::begin();
   auto r = l.markov(steps, o, true, gradient);
   draws::end();
   auto last = l.spin.configuration;
   // the same draws again, without those that fed seeds
   std::vector<uint64_t> again;
   for (size_t i = 0; i < draws::used; i++)
      if (!draws::irrelevant[i]) again.push_back(words[i]);
   size_t expected = again.size();
   std::vector<Configuration> visited;
   draws::clear();
   draws::words = again;
   initial(l, from);
   draws::begin();
   for (int i = 0; i < steps; i++) {
      l.equilibrate(1);
      visited.push_back(l.spin.configuration);
   }
   draws::end();
   if (controlled && draws::used == expected) mc::check(last == l.spin.configuration, "the chain of markov ends elsewhere than the chain of equilibrate");
   bool same = controlled && draws::used == expected && last == l.spin.configuration;
   draws::clear();
   if (!same) mc::skip();
   mc::check(std::get<0>(r).size() == 2, "other observables are reported");
   o["Energy"] = l.hamiltonians;
   for (auto& [k, group] : o)
      for (auto& [p, t] : group) {
         double mean = 0, square = 0;
         for (auto& c : visited) {
            double v = std::real(local(w, c, p, *t));
            mean += v / steps;
            square += v * v / steps;
         }
         mc::check(near(double(std::get<0>(r).at(k).at(p)), mean), [&] { return k + " at " + show(p) + " is not the average over the visited configurations"; });
         double variance = (square - mean * mean) / (steps - 1);
         mc::check(std::abs(double(std::get<1>(r).at(k).at(p)) - variance) <= 1e3 * tolerance() * (1 + square), "wrong variance");
      }
   auto& g = std::get<2>(r);
   if (!gradient) return;
   mc::check(int(g.size()) == M, "the gradient has another shape");
   auto network = network_of(l);
   std::complex<double> mean_e = 0;
   std::vector<std::complex<double>> es;
   for (auto& c : visited) {
      std::complex<double> e = 0;
      for (auto& [p, t] : l.hamiltonians) e += local(w, c, p, *t);
      es.push_back(e);
      mean_e += e / double(steps);
   }
   for (int i = 0; i < M; i++)
      for (int j = 0; j < N; j++) {
         auto& t = network.site[i][j];
         mc::check(g[i][j].names == l.lattice[i][j].names || std::set<Name>(g[i][j].names.begin(), g[i][j].names.end()) == std::set<Name>(l.lattice[i][j].names.begin(), l.lattice[i][j].names.end()), "the gradient has other edges than the tensor");
         for (int a = 0; a < t.l; a++)
            for (int b = 0; b < t.r; b++)
               for (int c = 0; c < t.u; c++)
                  for (int e = 0; e < t.d; e++)
                     for (int s = 0; s < d; s++) {
                        std::complex<double> first = 0, second = 0;
                        double scale = 1;
                        for (size_t k = 0; k < visited.size(); k++) {
                           if (visited[k][i][j] != s) continue;
                           auto hole = std::conj(network.value(visited[k], i, j, a, b, c, e) / w[index_of(visited[k], d)]);
                           first += hole * es[k] / double(steps);
                           second += hole / double(steps);
                           scale += std::abs(hole) * std::abs(es[k]);
                        }
                        auto want = 2. * first - 2. * mean_e * second;
                        scale += std::abs(mean_e * second);
                        auto have = wide(element(g[i][j], {{"L", a}, {"R", b}, {"U", c}, {"D", e}, {"P", s}}));
                        mc::check(std::abs(have - want) <= 100 * tolerance() * scale, "wrong element of the gradient");
                     }
      }
   mc::outcome(mc::mix(index_of(last, d), kind));
}
#endif
// the configuration as an object: setting, reading, replacing, copies of the lattice
static void object() {
   int which = mc::choose(mc::thorough() ? 8 : 6, "lattice");
   M = shape[which][0];
   N = shape[which][1];
   d = 2;
   auto l = std::make_unique<Lattice>(generic(2, 7, false));
   auto w = state_of(network_of(*l), d);
   int size = power(d, M * N);
   int start = mc::choose(std::min(size, 16), "configuration");
   int how = mc::choose(7, "way to copy");
   mc::commit();
   Configuration c = spins(M, N, d, start);
   if (mc::flip("by function")) l->initialize_spin([&](int i, int j) { return c[i][j]; });
   else l->initialize_spin(c);
   if (mc::flip("read before")) l->spin();
   std::unique_ptr<Lattice> o;
   static const char* ways[] = {"not copied", "copied", "assigned", "moved", "move-assigned", "another cut", "saved and loaded"};
   if (mc::replaying()) mc::note(ways[how]);
   if (how == 1) o = std::make_unique<Lattice>(*l);
   if (how == 2) {
      o = std::make_unique<Lattice>(2, 2, 1, 3, 2);
      *o = *l;
   }
   if (how == 3) o = std::make_unique<Lattice>(std::move(*l)), l.reset();
   if (how == 4) {
      o = std::make_unique<Lattice>(2, 2, 1, 3, 2);
      *o = std::move(*l);
      l.reset();
   }
   if (how == 5) {
      l->set_dimension_cut(77);
      mc::check(l->dimension_cut == 77 && l->spin.dimension_cut == 77, "the cut was not changed");
   }
   if (how == 6) {
      std::stringstream s;
      s < *l;
      o = std::make_unique<Lattice>(1, 2, 1, 3, 2);
      s > *o;
   }
   if (o && l && mc::flip("drop the original")) l.reset();
   auto verify = [&](Lattice& x, const Configuration& c, const char* what) {
      mc::check(x.spin.configuration == c, std::string("another configuration: ") + what);
      auto ws = x.spin();
      mc::check(close(wide(ws), w[index_of(c, d)], 0.001), std::string("another amplitude: ") + what);
      for (auto& p : all_positions()) {
         for (int k = 0; k < power(d, int(p.size())); k++) {
            auto q = c;
            std::map<Site, int> with;
            int rest = k;
            for (auto& [a, b] : p) {
               q[a][b] = with[{a, b}] = rest % d;
               rest /= d;
            }
            for (char hint : {'h', 'v', ' '}) mc::check(close(wide(x.spin(with, ws, hint)), w[index_of(q, d)], 0.001), std::string("another amplitude of replaced spins: ") + what);
         }
      }
   };
   auto& first = l ? *l : *o;
   verify(first, c, "after copying");
   int site = mc::choose(M * N, "site to flip");
   auto flipped = c;
   flipped[site / N][site % N] = 1 - flipped[site / N][site % N];
   if (o) {
      o->spin.set({site / N, site % N}, flipped[site / N][site % N]);
      verify(*o, flipped, "flipped copy");
      if (l) verify(*l, c, "original after a flip of the copy");
      if (l) {
         o.reset();
         l->spin.set({site / N, site % N}, flipped[site / N][site % N]);
         verify(*l, flipped, "original flipped after the copy is gone");
      }
   } else {
      if (mc::flip("unset first")) l->spin.set({site / N, site % N}, -1);
      l->spin.set({site / N, site % N}, flipped[site / N][site % N]);
      verify(*l, flipped, "flipped");
   }
   mc::state(mc::mix(which * 1000 + start, how));
}
void body() {
   switch (mc::choose(4, "part")) {
      case 0: return ergodic();
#ifndef COMPLEX_SCALAR // chains of complex states are not supported by the module
      case 1: return stationary();
      case 2: return collected();
#endif
      case 3: return object();
   }
}
int main(int argc, char** argv) { return mc::main(argc, argv, body); }
