// Conjugation: charges and arrows turn around, numbers are conjugated, twice is nothing, and a tensor contracted with its own
// conjugate over all edges gives the squared norm (up to the sign that the arrows give).
#include "ref.hpp"

void body() {
   bool wide = mc::flip("wide");
   int rank = wide ? 4 + mc::choose(2, "rank") : mc::choose(mc::thorough() ? 6 : 5, "rank");
   int first = wide ? mc::choose(5, "first shape") : 0, arrows = wide && is_fermi ? mc::choose(4, "arrows") : 0;
   std::vector<Edge> edges;
   for (int i = 0; i < rank; i++)
      if (wide) edges.push_back(wide_edge(i + first, wide_arrow(arrows, i)));
      else edges.push_back(choose_edge(rank <= 3 ? 2 : 0, "edge", rank <= 3));
   auto names = first_names(rank);
   auto order = rank <= 3 || wide ? choose_order(names, "order") : names;
   mc::commit();
   if (mc::replaying()) mc::note("tensor " + show(names, edges));
   auto r = make_ref(names, edges, 51);
   auto t = to_tensor(r);
   auto c = t.conjugate();
   expect(c, ref_conjugate(r), "conjugate");
   expect(c.conjugate(), r, "conjugate of the conjugate");
   expect(t, r, "operand");
   // conjugating commutes with reordering
   expect(t.transpose(order).conjugate(), ref_conjugate(ref_transpose(r, order)), "conjugate of the transposed");
   expect(c.transpose(order), ref_conjugate(ref_transpose(r, order)), "transposed conjugate");
   // <t|t>: one pair per edge
   std::vector<std::pair<Name, Name>> pairs;
   PairSet set;
   for (auto& n : names) {
      pairs.push_back({n, n});
      set.insert({n, n});
   }
   auto want = ref_contract(r, ref_conjugate(r), pairs);
   Scalar total(0);
   for (auto& [k, v] : want.data) total += v;
   double plain = 0, scale = 0;
   for (auto& [k, v] : r.data) scale += std::norm(v);
   if constexpr (!is_fermi) plain = scale;
   else { // arrow true: no sign; arrow false: one sign for every odd index
      for (auto& [k, v] : r.data) {
         bool sign = false;
         for (int i = 0; i < rank; i++)
            if (odd(k[i].first) && !get_arrow(r.edges[i])) sign = !sign;
         plain += sign ? -std::norm(v) : std::norm(v);
      }
   }
   mc::check(std::abs(total - Scalar(Real(plain))) <= 1e-12 * (1 + scale), "model: norm and contraction with the conjugate differ");
   if (!is_fermi || rank <= 1) { // several fermionic pairs in one contraction: see the known finding of the contraction property
      auto got = t.contract(c, set);
      mc::check(got.names.empty(), "contraction over all edges leaves edges");
      Scalar x = r.data.empty() ? Scalar(0) : Scalar(got);
      mc::check(std::abs(x - Scalar(Real(plain))) <= 1e-5 * (1 + scale), "contraction with the conjugate is not the squared norm");
   }
   mc::state(hash_tensor(t));
   mc::outcome(hash_tensor(c));
}
int main(int argc, char** argv) { return mc::main(argc, argv, body); }
