#pragma once
#include "ref.hpp"

constexpr double tolerance = sizeof(Real) == 4 ? 3e-5 : 1e-11;

// Σ_x conj(Q[x,k]) Q[x,k'] = δ for every sector of the edge `common` (signs of fermionic blocks cancel)
inline void expect_isometry(const Ref& q, const Name& common, const char* what) {
   int c = q.find(common);
   std::map<std::pair<Sym, Key>, std::map<Size, Scalar>> rows;
   for (auto& [k, v] : q.data) {
      Key rest;
      for (size_t i = 0; i < k.size(); i++)
         if (int(i) != c) rest.push_back(k[i]);
      rows[{k[c].first, rest}][k[c].second] = v;
   }
   std::map<std::tuple<Sym, Size, Size>, Scalar> gram;
   for (auto& [sr, row] : rows)
      for (auto& [i, x] : row)
         for (auto& [j, y] : row) {
            gram[{sr.first, i, j}] += conj_number(x) * y;
         }
   for (auto& [s, d] : q.edges[c].map)
      for (Size i = 0; i < d; i++)
         for (Size j = 0; j < d; j++) {
            auto f = gram.find({s, i, j});
            Scalar v = f == gram.end() ? Scalar(0) : f->second;
            mc::check(std::abs(v - Scalar(i == j ? 1 : 0)) < tolerance * 10, [&] { return std::string(what) + ": columns are not orthonormal"; });
         }
}
inline double norm2(const Ref& r) {
   double x = 0;
   for (auto& [k, v] : r.data) x += std::norm(v);
   return x;
}
inline void expect_close(const Ref& got, const Ref& want, double tol, const char* what) {
   double scale = 1;
   for (auto& [k, v] : want.data) scale = std::max<double>(scale, std::abs(v));
   std::set<Key> keys;
   for (auto& [k, v] : want.data) keys.insert(k);
   for (auto& [k, v] : got.data) keys.insert(k);
   for (auto& k : keys)
      mc::check(std::abs(got.get(k) - want.get(k)) <= tol * scale, [&] {
         return std::string(what) + ": element is " + show_number(got.get(k)) + " instead of " + show_number(want.get(k));
      });
}
// operand for a decomposition: rank, edges, which edges go left, contents
struct Operand {
   Ref r;
   std::set<Name> left;
   int wide = 0;
};
inline Operand choose_operand() {
   int wide = mc::choose(3, "kind"); // 1: four richer edges, 2: a larger matrix
   int rank = wide == 1 ? 4 : wide == 2 ? 2 : mc::choose(mc::thorough() ? 5 : 4, "rank");
   int first = wide == 1 ? mc::choose(3, "first shape") : 0, arrows = wide && is_fermi ? mc::choose(4, "arrows") : 0;
   static const std::vector<std::pair<Size, Size>> sizes = {{6, 6}, {7, 12}, {12, 7}, {1, 20}, {20, 1}, {40, 33}, {33, 40}, {17, 70}};
   auto size = wide == 2 ? mc::pick(sizes, "size") : std::pair<Size, Size>();
   auto names = first_names(rank);
   std::vector<Edge> edges;
   for (int i = 0; i < rank; i++) {
      if (wide == 1) edges.push_back(wide_edge(i + first, wide_arrow(arrows, i)));
      else if (wide == 2) {
         auto d = i ? size.second : size.first;
         if (is_no) edges.push_back(mk({{Sym(), d}}));
         else {
            auto e = mk({{charge(0), (d + 1) / 2}, {charge(1, 1), d}});
            edges.push_back(i ? dual(e) : e);
         }
         set_arrow(edges.back(), wide_arrow(arrows, i));
      } else if (rank <= 2) edges.push_back(choose_edge(2, "edge"));
      else {
         auto e = shapes(0)[mc::choose(3, "edge")];
         if (is_fermi) set_arrow(e, mc::flip("arrow"));
         edges.push_back(e);
      }
   }
   Operand o;
   o.wide = wide;
   for (int i = 0; i < rank; i++)
      if (mc::flip("left")) o.left.insert(names[i]);
   int content = wide ? 0 : mc::choose(3, "content"); // generic, zero, rank one in every sector
   o.r = make_ref(names, edges, 13);
   if (content == 1)
      for (auto& [k, v] : o.r.data) v = 0;
   if (content == 2)
      for (auto& [k, v] : o.r.data) v = Scalar(2);
   return o;
}
