// Singular value decomposition: for every small tensor, every bipartition of its edges and every truncation, the
// factors multiply back to the operand, are isometries, and truncation keeps the largest singular values.
#include "dec.hpp"

using Values = std::map<Sym, std::vector<Real>>;
template<typename S>
Values values_of(const S& s) {
   Values r;
#ifdef TAT_USE_SINGULAR_MATRIX
   for (auto& [k, b] : s.core->blocks) {
      Size n = s.core->edges[1].map.at(k[1]);
      for (Size i = 0; i < n; i++)
         for (Size j = 0; j < n; j++)
            if (i != j) mc::check(b[i * n + j] == Scalar(0), "the matrix of singular values is not diagonal");
      auto& v = r[k[1]];
      for (Size i = 0; i < n; i++) v.push_back(std::real(b[i * n + i]));
   }
#else
   for (auto& [k, v] : s.value) r[k] = {v.begin(), v.end()};
#endif
   return r;
}

Ref scaled(Ref u, const Name& common, const Values& s) {
   int c = u.find(common);
   for (auto& [k, v] : u.data) v *= s.at(k[c].first).at(k[c].second);
   return u;
}

void body() {
   auto o = choose_operand();
   int cut_mode = mc::choose(o.wide ? 7 : 4, "cut"); // none, 1, 2, 1000, and between
   // which order the sides get the new edges' names in must not matter; neither must the edge order
   auto order = o.r.names.size() <= 3 || (o.wide && cut_mode != 1) ? choose_order(o.r.names, "order") : o.r.names;
   mc::commit();
   o.r = ref_transpose(o.r, order);
   auto t = to_tensor(o.r);
   Name cu("U_common"), cv("V_common");
   Size cut = cut_mode == 0 ? Size(-1) : cut_mode == 1 ? 1 : cut_mode == 2 ? 2 : cut_mode == 3 ? 1000 : cut_mode == 4 ? 3 : cut_mode == 5 ? 5 : 9;
   mc::note("svd of " + show(o.r.names, o.r.edges) + " left " + show(Names(o.left.begin(), o.left.end())) + " cut " + std::to_string(long(cut)));
   auto full = t.svd(o.left, cu, cv, -1, Name("SU"), Name("SV"));
   auto result = t.svd(o.left, cu, cv, cut, Name("SU"), Name("SV"));
   mc::step(2);
   expect(t, o.r, "operand after svd");
   auto all = values_of(full.S), kept = values_of(result.S);
   // singular values: non-negative and decreasing
   std::vector<double> every, some;
   for (auto& [s, v] : all) every.insert(every.end(), v.begin(), v.end());
   for (auto& [s, v] : kept) some.insert(some.end(), v.begin(), v.end());
   for (auto* m : {&all, &kept})
      for (auto& [s, v] : *m)
         for (size_t i = 0; i < v.size(); i++) {
            mc::check(v[i] >= 0 && std::isfinite(v[i]), "a singular value is negative or not a number");
            if (i) mc::check(v[i - 1] >= v[i], "singular values are not decreasing");
         }
   std::sort(every.rbegin(), every.rend());
   std::sort(some.rbegin(), some.rend());
   size_t want_count = cut == Size(-1) ? every.size() : std::min<size_t>(cut, every.size());
   mc::check(some.size() == want_count, [&] { return "svd keeps " + std::to_string(some.size()) + " singular values instead of " + std::to_string(want_count); });
   double biggest = every.empty() ? 1 : std::max(1., every[0]);
   for (size_t i = 0; i < some.size(); i++) mc::check(std::abs(some[i] - every[i]) <= tolerance * biggest, "svd does not keep the largest singular values");
   double discarded = 0;
   for (size_t i = some.size(); i < every.size(); i++) discarded += every[i] * every[i];
   // the factors
   auto u = from_tensor(result.U), v = from_tensor(result.V);
   std::multiset<Name> nu(u.names.begin(), u.names.end()), nv(v.names.begin(), v.names.end()), wu{cu}, wv{cv};
   for (auto& n : o.r.names) (o.left.count(n) ? wu : wv).insert(n);
   mc::check(nu == wu && nv == wv, "svd: the factors have other edges");
   auto& eu = u.edges[u.find(cu)];
   auto& ev = v.edges[v.find(cv)];
   std::map<Sym, Size> du, dv, ds;
   for (auto& [s, d] : eu.map) du[s] = d;
   for (auto& [s, d] : ev.map) dv[-s] = d;
   for (auto& [s, x] : kept)
      if (!x.empty()) ds[s] = x.size();
   mc::check(du == dv && du == ds, "svd: the new edges do not match each other and the singular values");
   if (is_fermi && !du.empty()) mc::check(get_arrow(eu) != get_arrow(ev), "svd: arrows of the new edges");
   for (auto* f : {&u, &v})
      for (size_t i = 0; i < f->names.size(); i++)
         if (int p = o.r.find(f->names[i]); p >= 0) {
            if (is_fermi) mc::check(get_arrow(f->edges[i]) == get_arrow(o.r.edges[p]), "svd: arrow of a free edge changed");
            for (auto& [s, d] : f->edges[i].map) mc::check(map_has(o.r.edges[p].map, s) && o.r.edges[p].map.at(s) == d, "svd: shape of a free edge changed");
         }
   expect_isometry(u, cu, "svd U");
   expect_isometry(v, cv, "svd V");
   if (du.empty()) {
      mc::check(o.r.data.empty() || cut == 0, "svd lost everything");
   } else {
      auto product = ref_transpose(ref_contract(scaled(u, cu, kept), v, {{cu, cv}}), o.r.names);
      if (some.size() == every.size()) expect_close(product, o.r, tolerance * 10, "U S V");
      else {
         Ref difference = o.r;
         for (auto& [k, x] : difference.data) x -= product.get(k);
         double n = norm2(difference), n0 = std::max(1., norm2(o.r));
         mc::check(std::abs(n - discarded) <= tolerance * 100 * n0, "truncated svd is not the best approximation");
      }
      // the library's own product
      auto us = result.U.multiple(result.S, cu, 'u'), sv = result.V.multiple(result.S, cv, 'v');
      expect_close(from_tensor(us), scaled(u, cu, kept), tolerance, "U times S");
      auto p1 = from_tensor(us.contract(result.V, {{cu, cv}}).transpose(o.r.names)), p2 = from_tensor(result.U.contract(sv, {{cu, cv}}).transpose(o.r.names));
      mc::step(4);
      expect_close(p1, product, tolerance * 10, "(U S) V by the library");
      expect_close(p2, product, tolerance * 10, "U (S V) by the library");
   }
   mc::state(hash_tensor(t));
   mc::outcome(hash_tensor(result.U));
   mc::outcome(hash_tensor(result.V));
}
int main(int c, char** v) { return mc::main(c, v, body); }
