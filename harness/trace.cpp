// Trace against the defining sum, for every small tensor, pairing and edge order.
#include "ref.hpp"

// Sum over equal positions of opposite sectors; for fermions the pair is brought together with the edge whose arrow is
// true on the left.
Ref ref_trace(const Ref& r, const std::vector<std::pair<Name, Name>>& pairs) {
   Names order, free_names;
   std::set<Name> traced;
   for (auto [a, b] : pairs) {
      if (is_fermi && !get_arrow(r.edges[r.find(a)])) std::swap(a, b);
      order.push_back(a);
      order.push_back(b);
      traced.insert(a);
      traced.insert(b);
   }
   for (auto& n : r.names)
      if (!traced.count(n)) free_names.push_back(n);
   order.insert(order.end(), free_names.begin(), free_names.end());
   auto t = ref_transpose(r, order);
   size_t m = 2 * pairs.size();
   auto result = Ref::zeros(free_names, std::vector<Edge>(t.edges.begin() + m, t.edges.end()));
   for (auto& [k, v] : t.data) {
      bool on = true;
      for (size_t i = 0; i < m; i += 2)
         if (!(k[i].first == -k[i + 1].first) || k[i].second != k[i + 1].second) on = false;
      if (on) result.data.at(Key(k.begin() + m, k.end())) += v;
   }
   return result;
}

void body() {
   // 1: a sector on one side only; 2: three pairs; 3: richer edges
   int kind = is_no ? std::vector<int>{0, 2, 3}[mc::choose(3, "kind")] : mc::choose(4, "kind");
   int pairs_count = kind == 2 ? 3 : kind == 3 ? 1 + mc::choose(2, "pairs") : mc::choose(3, "pairs");
   int free_count = kind == 2 ? mc::choose(mc::thorough() ? 2 : 1, "free edges") : kind == 3 ? (pairs_count == 2 ? 1 : 2 + mc::choose(2, "free edges")) : mc::choose(pairs_count == 2 && !mc::thorough() ? 2 : 3, "free edges");
   int first = kind == 3 ? mc::choose(3, "first shape") : 0, arrows = kind == 3 && is_fermi ? mc::choose(4, "arrows") : 0;
   int rank = 2 * pairs_count + free_count;
   if (kind == 1 && pairs_count == 0) mc::skip();
   auto names = first_names(rank);
   std::vector<Edge> edges;
   std::vector<std::pair<Name, Name>> pairs;
   for (int i = 0; i < pairs_count; i++) {
      auto e = kind == 2   ? shapes(0)[i % 2]
               : kind == 3 ? wide_edge(i + first, wide_arrow(arrows, i))
                           : choose_edge(rank <= 3 ? 2 : 0, "traced edge", rank <= 4 || i == 0 || mc::thorough());
      if (kind == 2 && is_fermi) set_arrow(e, mc::flip("arrow"));
      auto f = dual(e);
      if (kind == 1 && i == 0) {
         if constexpr (!is_no) {
            int how = mc::choose(4, "mismatch");
            auto& victim = how & 1 ? e : f;
            auto& other = how & 1 ? f : e;
            if (how < 2) {
               if (victim.map.size() < 2) mc::skip();
               map_erase(victim.map, victim.map.begin());
            } else {
               if (std::is_same_v<Sym, TAT::Z2Symmetry>) mc::skip();
               victim.map[charge(4, 0)] = 2;
               other.map[charge(5, 1)] = 1;
            }
         }
      }
      edges.push_back(e);
      edges.push_back(f);
      bool swapped = (kind == 2 ? i == 1 : rank <= 4 || i == 0) && mc::flip("pair written the other way");
      if (swapped) pairs.push_back({names[2 * i + 1], names[2 * i]});
      else pairs.push_back({names[2 * i], names[2 * i + 1]});
   }
   for (int i = 0; i < free_count; i++)
      edges.push_back(kind == 2 ? shapes(0)[0] : kind == 3 ? wide_edge(i + first + 2, wide_arrow(arrows, i + 2)) : choose_edge(rank <= 3 ? 2 : 0, "free edge", rank <= 4 || mc::thorough()));
   auto order = choose_order(names, "order");
   mc::commit();
   auto r = ref_transpose(make_ref(names, edges, 7), order);
   auto t = to_tensor(r);
   PairSet set;
   for (auto& [a, b] : pairs) set.insert({a, b});
   if (mc::replaying()) {
      std::string p;
      for (auto& [a, b] : pairs) p += " " + show(a) + "-" + show(b);
      mc::note("trace " + show(r.names, r.edges) + " over" + p);
   }
   auto q = t.trace(set);
   mc::step();
   auto want = ref_trace(r, pairs);
   std::multiset<Name> g(q.names.begin(), q.names.end()), w(want.names.begin(), want.names.end());
   mc::check(g == w, "trace: the result has other edges");
   expect(q, ref_transpose(want, q.names), "trace");
   expect(t, r, "operand after trace");
   mc::state(hash_tensor(q));
   mc::outcome(hash_tensor(q));
}
int main(int c, char** v) { return mc::main(c, v, body); }
