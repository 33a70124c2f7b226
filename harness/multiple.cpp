// Multiplying a tensor along one edge by a list of numbers per sector, or dividing by it.
#include "ref.hpp"
using Singular = typename Tensor::SingularType;

template<typename S>
S make_singular(const std::map<Sym, std::vector<Real>>& values) {
#ifdef TAT_USE_SINGULAR_MATRIX
   std::vector<std::pair<Sym, Size>> u, v;
   for (auto& [s, l] : values) {
      u.push_back({-s, l.size()});
      v.push_back({s, l.size()});
   }
   // U's common edge carries the charge of S, so S faces U with the opposite one: edge 0 towards U, edge 1 towards V
   S r(Names{Name("SU"), Name("SV")}, std::vector<Edge>{mk(u, false), mk(v, true)});
   r.zero();
   for (auto& [s, l] : values)
      for (size_t i = 0; i < l.size(); i++) r.core->blocks.at({-s, s})[i * l.size() + i] = l[i];
   return r;
#else
   S r;
   for (auto& [s, l] : values) {
      auto& x = r.value[s];
      x.clear();
      for (auto& y : l) x.push_back(y);
   }
   return r;
#endif
}
void body() {
   int big = mc::flip("long trailing edge");
   bool wide = !big && mc::flip("wide");
   int rank = big ? 3 : wide ? 4 + mc::choose(2, "rank") : 1 + mc::choose(mc::thorough() ? 4 : 3, "rank");
   std::vector<Edge> edges;
   int index;
   if (big) { // the kernel is compiled for every trailing size up to 16 and then once for all others
      index = mc::choose(2, "which edge");
      int n = 1 + mc::choose(19, "trailing size");
      edges = {mk({{Sym(), 2}}), mk({{Sym(), 3}}), mk({{Sym(), Size(n)}})};
      for (auto& e : edges) set_arrow(e, is_fermi && mc::flip("arrow"));
   } else {
      index = mc::choose(rank, "which edge");
      int first = wide ? mc::choose(5, "first shape") : 0, arrows = wide && is_fermi ? mc::choose(4, "arrows") : 0;
      for (int i = 0; i < rank; i++) edges.push_back(wide ? wide_edge(i + first, wide_arrow(arrows, i)) : choose_edge(rank <= 2 ? 2 : 0, "edge", rank <= 2));
   }
   char direction = mc::pick(std::vector<char>{'u', 'U', 'v', 'V'}, "direction");
   bool division = mc::flip("division");
   bool extra = !is_no && mc::flip("the list has a sector the tensor has not");
   mc::commit();
   auto names = first_names(rank);
   auto r = make_ref(names, edges, 41);
   auto t = to_tensor(r);
   bool v = direction == 'v' || direction == 'V';
   std::map<Sym, std::vector<Real>> values;
   int k = 1;
   for (auto& [s, d] : r.edges[index].map) {
      auto& l = values[v ? -s : s];
      for (Size i = 0; i < d; i++) l.push_back(std::ldexp(Real(1), k % 5 == 4 ? -50 : k % 6)), k++; // exact to divide by, one of them tiny
   }
   if (extra) values.insert({charge(7, 1), {Real(64), Real(32)}});
   if (mc::replaying()) mc::note("tensor " + show(names, edges) + " edge " + show(names[index]) + " direction " + direction + (division ? " division" : ""));
   auto s = make_singular<Singular>(values);
   auto result = t.multiple(s, names[index], direction, division);
   auto expected = r;
   for (auto& [key, x] : expected.data) {
      auto f = values.at(v ? -key[index].first : key[index].first)[key[index].second];
      if (division) x /= f;
      else x *= f;
   }
   expect(result, expected, "multiple");
   expect(t, r, "operand");
   expect(result.multiple(s, names[index], direction, !division), r, "multiplying and dividing again");
#ifndef TAT_USE_SINGULAR_MATRIX
   { // the list itself: norms and in-place arithmetic see every number once
      Real sum = 0, most = 0;
      std::vector<std::pair<Sym, size_t>> at;
      for (auto& [c, l] : values)
         for (size_t i = 0; i < l.size(); i++) {
            sum += l[i];
            most = std::max(most, l[i]);
            at.push_back({c, i});
         }
      auto less = s.copy();
      less *= Real(-1);
      mc::check(s.template norm<1>() == sum && less.template norm<1>() == sum, "the sum of the magnitudes of a list is wrong");
      mc::check(s.template norm<-1>() == most && less.template norm<-1>() == most, "the largest magnitude of a list is wrong");
      for (int op = 0; op < 4; op++)
         for (int own = 0; own < (at.empty() ? 1 : 4); own++) {
            auto q = s.copy();
            auto [oc, oi] = own == 0 ? std::pair<Sym, size_t>() : own == 1 ? at.front() : own == 2 ? at[at.size() / 2] : at.back();
            Real y = own ? values.at(oc)[oi] : Real(4);
            auto apply = [&](auto& z, const auto& n) -> auto& { return op == 0 ? z += n : op == 1 ? z -= n : op == 2 ? z *= n : z /= n; };
            auto& back = own ? apply(q, q.value.at(oc)[oi]) : apply(q, y);
            mc::check(&back == &q, "an in-place operator returned something else than its operand");
            size_t n = 0;
            for (auto& [c, l] : q.value) {
               auto found = values.find(c);
               mc::check(found != values.end() && found->second.size() == l.size(), "arithmetic changed the sectors of a list");
               for (size_t i = 0; i < l.size(); i++, n++) {
                  Real want = found->second[i];
                  apply(want, y);
                  mc::check(std::abs(l[i] - want) <= std::abs(want) * Real(sizeof(Real) == 4 ? 1e-6 : 1e-14), "arithmetic with a number does not act on every number of a list alike");
               }
            }
            mc::check(n == at.size(), "arithmetic changed the sectors of a list");
         }
      for (auto& [c, l] : s.value)
         for (size_t i = 0; i < l.size(); i++) mc::check(l[i] == values.at(c)[i], "changing a copy of a list changed the list");
   }
#endif
   mc::state(mc::mix(hash_tensor(t), index));
   mc::outcome(hash_tensor(result));
}
int main(int argc, char** argv) { return mc::main(argc, argv, body); }
