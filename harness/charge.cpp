// Charges: for every symmetry they are an abelian group with a total order that edges and block lookups rely on, and the signs
// of reordering, reversing and merging fermionic indices compose like the permutations they stand for.
#include "ref.hpp"
#include <numeric>

template<typename Sym>
static std::vector<Sym> charges() {
   std::vector<Sym> r;
   int n = mc::thorough() ? 6 : 4;
   if constexpr (std::is_same_v<Sym, TAT::NoSymmetry>) r = {Sym()};
   else if constexpr (std::is_same_v<Sym, TAT::Z2Symmetry>) r = {Sym(false), Sym(true)};
   else if constexpr (std::is_same_v<Sym, TAT::U1Symmetry>) {
      for (int i = -n; i <= n; i++) r.push_back(Sym(i));
      r.push_back(Sym(1000003));
      r.push_back(Sym(-1000003));
   } else if constexpr (std::is_same_v<Sym, TAT::FermiSymmetry>) {
      for (int i = -n; i <= n; i++) r.push_back(Sym(i));
   } else if constexpr (std::is_same_v<Sym, TAT::FermiZ2Symmetry>) {
      for (int i = -n; i <= n; i++)
         for (int z = 0; z < 2; z++) r.push_back(Sym(i, bool(z)));
   } else {
      for (int i = -n / 2; i <= n / 2; i++)
         for (int u = -n / 2; u <= n / 2; u++) r.push_back(Sym(i, u));
   }
   return r;
}
// the charge as plain numbers, from its fields
template<typename Sym>
static std::vector<long> plain(const Sym& s) {
   if constexpr (std::is_same_v<Sym, TAT::NoSymmetry>) return {};
   else if constexpr (std::is_same_v<Sym, TAT::Z2Symmetry>) return {s.z2};
   else if constexpr (std::is_same_v<Sym, TAT::U1Symmetry>) return {s.u1};
   else if constexpr (std::is_same_v<Sym, TAT::FermiSymmetry>) return {s.fermi};
   else if constexpr (std::is_same_v<Sym, TAT::FermiZ2Symmetry>) return {s.fermi, s.z2};
   else return {s.fermi, s.u1};
}
template<typename Sym>
static std::vector<long> sum(const Sym& a, const Sym& b) {
   auto x = plain(a), y = plain(b);
   for (size_t i = 0; i < x.size(); i++) {
      x[i] += y[i];
      bool z2 = std::is_same_v<Sym, TAT::Z2Symmetry> || (std::is_same_v<Sym, TAT::FermiZ2Symmetry> && i == 1);
      if (z2) x[i] %= 2;
   }
   return x;
}
void algebra() {
   auto all = charges<Sym>();
   auto a = mc::pick(all, "charge");
   auto b = mc::pick(all, "charge");
   mc::commit();
   const Sym zero{};
   mc::check(plain(a + b) == sum(a, b), "the sum of two charges is wrong");
   Sym c = a;
   auto& back = (c += b);
   mc::check(&back == &c && c == a + b, "adding in place differs from adding");
   mc::check(a + b == b + a, "adding charges depends on their order");
   mc::check(a + zero == a && zero + a == a, "the zero charge changes a charge");
   mc::check(a + (-a) == zero && -(-a) == a && -zero == zero, "the opposite charge is wrong");
   mc::check(-(a + b) == (-a) + (-b), "the opposite of a sum is not the sum of the opposites");
   for (auto& d : all) {
      mc::check((a + b) + d == a + (b + d), "adding charges is not associative");
      if (a < b && b < d) mc::check(a < d, "the order of charges is not transitive");
      mc::check((a + d == b + d) == (a == b), "adding a charge makes charges equal");
   }
   bool equal = plain(a) == plain(b), less = plain(a) < plain(b);
   mc::check((a == b) == equal && (a != b) == !equal, "equality of charges is wrong");
   mc::check((a < b) == less && (a > b) == (!less && !equal) && (a <= b) == (less || equal) && (a >= b) == !less, "the order of charges is wrong");
   c = a;
   c += c;
   mc::check(c == a + a, "adding a charge to itself in place is wrong");
   // edges made of charges
   Edge e1 = std::set<Sym>{a, b}, e2 = std::initializer_list<Sym>{b, a};
   mc::check(e1.map == e2.map && e1.map.size() == (equal ? 1u : 2u), "an edge made from charges has other sectors");
   for (auto& [s, d] : e1.map) mc::check(d == 1, "an edge made from charges has another dimension");
   if (!equal) {
      Edge x = mk({{a, 2}, {b, 3}}), y = mk({{b, 3}, {a, 2}}), z = mk({{a, 2}, {b, 4}});
      mc::check(x == y && !(x == z) && !(x == e1), "equality of edges is wrong");
      mc::check(x.map.at(a) == 2 && x.map.at(b) == 3, "a sector of an edge has another dimension");
      if (has_direction(x)) {
         set_arrow(y, true);
         mc::check(!(x == y), "edges with different arrows are equal");
      }
   }
   Edge t = Size(5);
   mc::check(t.map.size() == 1 && t.map.begin()->first == zero && t.map.begin()->second == 5, "a plain edge has a charge");
   mc::step(20);
   mc::state(mc::mix(mc::hash_bytes(1, plain(a).data(), 8 * plain(a).size()), mc::hash_bytes(2, plain(b).data(), 8 * plain(b).size())));
}
// sign of a permutation of fermionic indices by moving one index after another
template<typename S>
void signs() {
   int n = mc::choose((mc::thorough() ? 6 : 5) + 1, "number of indices");
   std::vector<S> s;
   for (int i = 0; i < n; i++) {
      int f = mc::choose(n > 4 ? 3 : 5, "fermions");
      static const int numbers[] = {1, 0, -1, 2, 3};
      S q{};
      q.fermi = numbers[f];
      s.push_back(q);
   }
   std::vector<TAT::Rank> p(n);
   std::iota(p.begin(), p.end(), 0);
   int k = 1;
   for (int i = 2; i <= n; i++) k *= i;
   for (int i = mc::choose(k, "permutation"); i > 0; i--) std::next_permutation(p.begin(), p.end());
   mc::commit();
   auto odd_number = [](const S& q) { return q.fermi % 2 != 0; };
   // bubble sort the target positions, counting exchanges of two odd indices
   auto bubble = [&](std::vector<TAT::Rank> plan, std::vector<S> q) {
      bool r = false;
      for (int i = 0; i < n; i++)
         for (int j = 0; j + 1 < n; j++)
            if (plan[j] > plan[j + 1]) {
               if (odd_number(q[j]) && odd_number(q[j + 1])) r = !r;
               std::swap(plan[j], plan[j + 1]);
               std::swap(q[j], q[j + 1]);
            }
      return r;
   };
   mc::check(S::get_transpose_parity(s, p) == bubble(p, s), "the sign of reordering fermionic indices is wrong");
   // reversing indices
   for (int mask = 0; mask < 1 << n; mask++)
      for (int valid = 0; valid < 1 << n; valid++) {
         std::vector<bool> a(n), b(n);
         bool want = false;
         for (int i = 0; i < n; i++) {
            a[i] = mask >> i & 1;
            b[i] = valid >> i & 1;
            if (a[i] && b[i] && odd_number(s[i])) want = !want;
         }
         mc::check(S::get_reverse_parity(s, a, b) == want, "the sign of reversing fermionic indices is wrong");
      }
   // merging consecutive groups reverses the order in each group
   for (int cut = 0; cut < (n > 0 ? 1 << (n - 1) : 1); cut++) {
      std::vector<TAT::Rank> flag(n);
      int group = 0;
      for (int i = 0; i < n; i++) {
         if (i > 0 && (cut >> (i - 1) & 1)) group++;
         flag[i] = group;
      }
      int groups = n ? group + 1 : 0;
      for (int valid = 0; valid < 1 << groups; valid++) {
         std::vector<bool> b(groups);
         bool want = false;
         for (int g = 0; g < groups; g++) {
            b[g] = valid >> g & 1;
            if (b[g])
               for (int i = 0; i < n; i++)
                  for (int j = 0; j < i; j++)
                     if (flag[i] == TAT::Rank(g) && flag[j] == TAT::Rank(g) && odd_number(s[i]) && odd_number(s[j])) want = !want;
         }
         mc::check(S::get_split_merge_parity(s, flag, b) == want, "the sign of merging fermionic indices is wrong");
      }
   }
   mc::step(1 << n);
   uint64_t h = n;
   for (auto& q : s) h = mc::mix(h, q.fermi);
   for (auto& q : p) h = mc::mix(h, q);
   mc::state(h);
}
// arrows of fermionic edges
template<typename E>
void arrows() {
   E e;
   int n = mc::choose(4, "sectors");
   bool negative = false, charged = false;
   for (int i = 0; i < n; i++) {
      typename E::symmetry_type s{};
      s.fermi = mc::choose(5, "fermions") - 2;
      negative = negative || s.fermi < 0;
      charged = charged || s.fermi != 0;
      e.map[s] = 1;
   }
   mc::check(e.arrow == false, "a new edge has an arrow");
   e.arrow = mc::flip("arrow");
   bool before = e.arrow;
   mc::check(e.arrow_valid() == charged, "whether an edge can have an arrow is wrong");
   e.possible_reverse();
   mc::check(e.arrow == (before != negative), "the arrow from the fermion numbers is wrong");
}
void body() {
   if constexpr (TAT::is_fermi_symmetry_v<Sym>) {
      int what = mc::choose(3, "what");
      if (what == 0) algebra();
      else if (what == 1) signs<Sym>();
      else arrows<Edge>();
   } else algebra();
}
int main(int argc, char** argv) { return mc::main(argc, argv, body); }
