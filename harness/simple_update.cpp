// Simple update: when no singular value is dropped, an update multiplies the state by the exponentials of all terms, in an order and
// back; on several ranks every rank ends with the state that one rank computes alone, under every schedule.
#include "lattice.hpp"
using Lattice = square::SimpleUpdateLattice<T>;
static int M, N, d;

static double entry(uint64_t k) { return 1.5 * sequence(k); }
// an operator of given bodies; commuting ones are diagonal
static Operator make_operator(int body, int kind) {
   std::vector<Name> names;
   std::vector<Size> dims;
   for (int i = 0; i < body; i++) {
      names.push_back("I" + std::to_string(i));
      names.push_back("O" + std::to_string(i));
      dims.push_back(d);
      dims.push_back(d);
   }
   if (kind % 2) std::reverse(names.begin(), names.end());
   Tensor t(names, dims);
   t.zero();
   int size = power(d, body);
   for (int a = 0; a < size; a++)
      for (int b = 0; b < size; b++) {
         if (kind >= 10 && a != b) continue;
         std::map<Name, Size> at;
         int x = a, y = b;
         for (int i = 0; i < body; i++) {
            at["I" + std::to_string(i)] = x % d;
            at["O" + std::to_string(i)] = y % d;
            x /= d;
            y /= d;
         }
         t.at(at) = T(Real(entry(kind * 1000 + a * 31 + b)));
      }
   return std::make_shared<const Tensor>(std::move(t));
}
// the state with the environments on the bonds
static State state(const Lattice& l) {
   auto n = Network(l.lattice);
   for (auto& [where, s] : l.environment) {
      auto [direction, i, j] = where;
      mc::check(i >= 0 && i < M && j >= 0 && j < N && (direction == 'R' ? j + 1 < N : direction == 'D' && i + 1 < M), "an environment where no bond is");
      std::vector<double> values;
      for (auto& [q, v] : s.value)
         for (auto x : v) values.push_back(x);
      auto& t = n.site[i][j];
      mc::check(int(values.size()) == (direction == 'R' ? t.r : t.d), "an environment has another dimension than its bond");
      for (int a = 0; a < t.l; a++)
         for (int b = 0; b < t.r; b++)
            for (int c = 0; c < t.u; c++)
               for (int e = 0; e < t.d; e++)
                  for (int f = 0; f < t.p; f++) t.data[(((a * t.r + b) * t.u + c) * t.d + e) * t.p + f] *= values[direction == 'R' ? b : e];
   }
   return state_of(n, d);
}
static Lattice generic(int D, uint64_t salt) {
   Lattice l(M, N, D, d);
   for (int i = 0; i < M; i++)
      for (int j = 0; j < N; j++) {
         uint64_t k = salt * 100000 + (i * 10 + j) * 1000;
         l.lattice[i][j].set([&] { return number(k++); });
      }
   return l;
}
static std::vector<Positions> all_positions(bool both) {
   std::vector<Positions> r;
   for (int i = 0; i < M; i++)
      for (int j = 0; j < N; j++) {
         r.push_back({{i, j}});
         if (j + 1 < N) {
            r.push_back({{i, j}, {i, j + 1}});
            if (both) r.push_back({{i, j + 1}, {i, j}});
         }
         if (i + 1 < M) {
            r.push_back({{i, j}, {i + 1, j}});
            if (both) r.push_back({{i + 1, j}, {i, j}});
         }
      }
   return r;
}
static const int shape[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}};

static bool same_sites(Positions a, Positions b) {
   std::sort(a.begin(), a.end());
   std::sort(b.begin(), b.end());
   return a == b;
}
// all orders of the terms and back, of which one must describe the update
static bool explained(const State& before, const State& after, const Lattice& l, double delta, int steps) {
   std::vector<std::pair<Positions, Exponential>> terms;
   for (auto& [p, h] : l.hamiltonians) terms.push_back({p, Exponential(*h, d, int(p.size()), -delta)});
   std::vector<int> order;
   for (int i = 0; i < int(terms.size()); i++) order.push_back(i);
   bool one_bond = terms.size() == 2 && same_sites(terms[0].first, terms[1].first);
   do {
      auto s = before;
      for (int k = 0; k < steps; k++) {
         for (size_t i = 0; i < order.size(); i++) s = apply(s, M, N, d, terms[order[i]].first, terms[order[i]].second);
         for (size_t i = order.size(); i-- > 0;) s = apply(s, M, N, d, terms[order[i]].first, terms[order[i]].second);
      }
      if (proportional(after, s)) return true;
      s = before; // the two terms of one bond may also be applied in the same order both times
      for (int k = 0; k < 2 * steps; k++)
         for (size_t i = 0; i < order.size(); i++) s = apply(s, M, N, d, terms[order[i]].first, terms[order[i]].second);
      if (one_bond && proportional(after, s)) return true;
   } while (std::next_permutation(order.begin(), order.end()));
   return false;
}
static void terms() {
   int which = mc::choose(mc::thorough() ? 10 : 8, "lattice");
   M = shape[which][0];
   N = shape[which][1];
   d = M * N <= 2 && mc::thorough() ? 2 + mc::choose(2, "spins") : 2;
   int D = 1 + mc::choose(M * N <= 4 ? 2 : 1, "bond dimension");
   auto positions = all_positions(true);
   int number = 1 + mc::choose(M * N <= 4 ? 2 : 1, "terms");
   int first = mc::choose(int(positions.size()), "first term");
   int second = number == 2 ? mc::choose(int(positions.size()), "second term") : 0;
   if (number == 2 && first == second) mc::skip();
   mc::commit();
   auto l = generic(D, 1);
   bool shared = number == 2 && positions[first].size() == positions[second].size() && mc::flip("the same operator");
   auto h = make_operator(int(positions[first].size()), 1);
   auto h2 = shared ? h : make_operator(int(number == 2 ? positions[second].size() : 1), 2);
   l.hamiltonians[positions[first]] = h;
   if (number == 2) l.hamiltonians[positions[second]] = h2;
   double delta = 0.1 + 0.2 * mc::choose(2, "time step");
   int steps = M * N > 4 ? 1 : mc::choose(3, "steps");
   auto before = state(l);
   l.update(steps, Real(delta), 60);
   auto after = state(l);
   mc::check(explained(before, after, l, delta, steps), "an update without truncation does not multiply the state by the exponentials of its terms");
   // once more, with other terms, on top of the environments that are there now
   l.hamiltonians.clear();
   l.hamiltonians[positions[second]] = make_operator(int(positions[second].size()), 4);
   before = after;
   l.update(1, Real(delta), 0);
   after = state(l);
   mc::check(l.dimension_virtual == 60, "the dimension changed without being asked to");
   mc::check(explained(before, after, l, delta, 1), "an update that continues another one does not multiply the state by the exponential of its term");
   mc::state(mc::mix(which * 100 + first, second * 10 + number));
}
// terms everywhere, which commute: every term is applied exactly twice per step
static void everywhere() {
   int which = mc::choose(mc::thorough() ? 10 : 8, "lattice");
   M = shape[which][0];
   N = shape[which][1];
   d = 2;
   // singular values that vanish must not be kept (the module divides by them): such terms need a bond dimension of exactly two
   // on top of a product state; on a chain the dimension is limited by the rest of the chain anyway
   bool chain = M == 1 || N == 1;
   int D = chain ? 1 + mc::choose(2, "bond dimension") : 1;
   int steps = 1 + mc::choose(2, "steps");
   int kind = mc::choose(3, "terms"); // sites, bonds, both
   mc::commit();
   auto l = generic(D, 2);
   int n = 0;
   for (auto& p : all_positions(false))
      if (kind == 2 || int(p.size()) == kind + 1) l.hamiltonians[p] = make_operator(int(p.size()), 10 + n++);
   auto before = state(l);
   double delta = 0.05;
   l.update(steps, Real(delta), chain && D > 1 ? 16 : 2);
   auto after = state(l);
   auto s = before;
   for (auto& [p, h] : l.hamiltonians) {
      Exponential e(*h, d, int(p.size()), -2 * steps * delta);
      s = apply(s, M, N, d, p, e);
   }
   mc::check(proportional(after, s), "an update does not apply every term twice per step");
   mc::state(mc::mix(which, kind * 10 + steps));
}
// ranks
static void ranks() {
   static const int small[][2] = {{1, 2}, {1, 3}, {2, 2}, {1, 4}, {4, 1}};
   int which = mc::choose(mc::thorough() ? 5 : 4, "lattice");
   M = small[which][0];
   N = small[which][1];
   d = 2;
   int n = 2 + mc::choose(3, "ranks");
   int kind = mc::choose(3, "terms");
   bool truncated = mc::flip("truncated");
   int set = mc::choose(kind == 0 ? 2 : 4, "which terms"); // all, every other one, from right to left, in both orders
   if (set == 3 && !truncated && M > 1 && N > 1) mc::skip(); // would keep singular values that vanish
   mc::commit();
   auto start = generic(2, 3);
   int k = 0;
   for (auto& p : all_positions(false)) {
      bool odd = k++ % 2;
      if (set == 1 && odd) continue;
      if (kind == 2 || int(p.size()) == kind + 1) {
         auto q = p;
         if (set == 2 || set == 3) std::reverse(q.begin(), q.end());
         if (set == 3) start.hamiltonians[p] = make_operator(int(p.size()), 40 + k);
         start.hamiltonians[q] = make_operator(int(p.size()), 1 + k);
      }
   }
   if (start.hamiltonians.empty()) mc::skip();
   TAT::mpi.rank = 0;
   TAT::mpi.size = 1;
   auto alone = start;
   alone.update(1, Real(0.1), truncated ? 2 : 16);
   auto want = state(alone);
   std::vector<Lattice> mine(n, start);
   sim::policy = mc::choose(3, "policy of the schedule");
   sim::deviations = mc::thorough() ? 2 : 1;
   uint64_t configuration = mc::mix(mc::mix(which * 10 + n, kind * 10 + truncated), set);
   sim::run(
         n,
         configuration,
         [&](int me) { mine[me].update(1, Real(0.1), truncated ? 2 : 16); },
         [&](int i) {
            TAT::mpi.rank = i;
            TAT::mpi.size = n;
         });
   TAT::mpi.rank = 0;
   TAT::mpi.size = 1;
   for (int i = 0; i < n; i++) {
      mc::check(proportional(state(mine[i]), want), [&] { return "rank " + std::to_string(i) + " of " + std::to_string(n) + " ends with another state than one process alone"; });
      mc::check(mine[i].environment.size() == alone.environment.size(), "a rank has other environments");
   }
   mc::outcome(configuration);
}
void body() {
   TAT::mpi.rank = 0;
   TAT::mpi.size = 1;
   switch (mc::choose(3, "part")) {
      case 0: return terms();
      case 1: return everywhere();
      case 2: return ranks();
   }
}
int main(int argc, char** argv) { return mc::main(argc, argv, body); }
