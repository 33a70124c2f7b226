// Reordering edges: every rank, shape and order; small blocks through the table model, large blocks (the library
// switches copy strategy with the size) through direct index arithmetic.
#include "ref.hpp"

void small_case(bool wide) {
   int max_rank = is_no ? (mc::thorough() ? 6 : 5) : (mc::thorough() ? 5 : 4);
   int rank = wide ? 5 + mc::choose(2, "rank") : mc::choose(max_rank + 1, "rank");
   int level = rank <= 3 ? (mc::thorough() ? 2 : 1) : 0;
   std::vector<Edge> edges;
   int first = wide ? mc::choose(rank == 5 ? 3 : 1, "first shape") : 0, arrows = wide && is_fermi ? mc::choose(rank == 5 ? 4 : 2, "arrows") : 0;
   for (int i = 0; i < rank; i++) {
      if (wide) {
         edges.push_back(rank == 5 ? wide_edge(i + first, wide_arrow(arrows, i)) : shapes(0)[i % 3 == 2 ? 1 : 0]);
         set_arrow(edges.back(), wide_arrow(arrows, i));
      } else if (is_no && rank >= 5) {
         edges.push_back(mk({{Sym(), Size(mc::choose(2, "dimension") ? 1 : 2 + i % 3)}}));
      } else if (is_fermi && rank == 5) {
         auto e = shapes(0)[mc::choose(2, "edge")];
         set_arrow(e, i & 1);
         edges.push_back(e);
      } else {
         edges.push_back(choose_edge(level, "edge", rank <= 3 || mc::thorough()));
      }
   }
   auto names = first_names(rank);
   auto order = choose_order(names, "order");
   mc::commit();
   auto r = make_ref(names, edges, rank);
   auto t = to_tensor(r);
   mc::note("tensor " + show(names, edges) + " -> " + show(order));
   auto q = t.transpose(order);
   expect(q, ref_transpose(r, order), "transpose");
   expect(t, r, "operand after transpose");
   auto back = q.transpose(names);
   expect(back, r, "transposed back");
   mc::step(2);
   mc::state(hash_tensor(q));
   mc::outcome(hash_tensor(q));
}

// out must be the reordering of in, block by block
void expect_reordered(const Tensor& in, const Tensor& out, const std::vector<Rank>& from) {
   Rank rank = in.names.size();
   size_t blocks = 0;
   for (auto& [key, block] : in.core->blocks) {
      std::vector<Sym> target(rank);
      std::vector<Size> stride(rank, 1), dims(rank);
      for (Rank i = 0; i < rank; i++) dims[i] = in.core->edges[i].map.at(key[i]);
      for (int i = int(rank) - 2; i >= 0; i--) stride[i] = stride[i + 1] * dims[i + 1];
      bool sign = false;
      for (Rank i = 0; i < rank; i++) {
         target[i] = key[from[i]];
         for (Rank j = 0; j < i; j++)
            if (from[j] > from[i] && odd(key[from[i]]) && odd(key[from[j]])) sign = !sign;
      }
      auto found = out.core->blocks.find(target);
      if (found == out.core->blocks.end() || found->second.size() != block.size()) mc::fail("large transpose: block missing or of another size");
      std::vector<Size> index(rank, 0);
      Size position = 0;
      auto data = found->second.data();
      for (Size k = 0; k < block.size(); k++) {
         auto v = block[position];
         if (data[k] != (sign ? -v : v)) mc::fail("large transpose: element " + std::to_string(k) + " of a block is wrong");
         for (int i = int(rank) - 1; i >= 0; i--) {
            index[i]++;
            position += stride[from[i]];
            if (index[i] < dims[from[i]]) break;
            position -= index[i] * stride[from[i]];
            index[i] = 0;
         }
      }
      blocks++;
   }
   mc::check(out.core->blocks.size() == in.core->blocks.size(), "large transpose: another number of blocks");
}

void large_case() {
   // number of elements from which a block counts as large for this scalar
   Size need = 98304 / sizeof(Scalar);
   static const std::vector<std::vector<Size>> templates = {
         {96, 1}, {1, 0}, {2, 0}, {17, 0}, {0, 3}, {8, 12, 0}, {1, 64, 0}, {33, 0, 5}, {2, 2, 0}, {0, 16, 3}, {8, 0, 1, 9}, {4, 5, 6, 0}, {16, 0, 7, 2}, {3, 2, 5, 2, 0}, {2, 3, 0, 2, 17}};
   int n = mc::choose(int(templates.size()), "template");
   auto dims = templates[n];
   Size product = 1;
   for (auto d : dims)
      if (d) product *= d;
   int excess = mc::choose(mc::thorough() ? 3 : 2, "below, at, above the switch");
   for (auto& d : dims)
      if (!d) d = excess == 0 ? (need - 1) / product : excess == 1 ? (need + product - 1) / product : (need + product - 1) / product + 5;
   if (n == 0) dims = {need / 128, excess == 0 ? Size(127) : excess == 1 ? Size(128) : Size(131)};
   int rank = dims.size();
   std::vector<Edge> edges;
   int parity = is_fermi ? mc::choose(2, "odd edges") : 0;
   for (int i = 0; i < rank; i++) edges.push_back(mk({{is_fermi && parity && i < 2 ? charge(i ? -1 : 1) : charge(0), dims[i]}}, i & 1));
   auto names = first_names(rank);
   std::vector<Rank> positions(rank);
   for (int i = 0; i < rank; i++) positions[i] = i;
   auto from = choose_order(positions, "order");
   mc::commit();
   Tensor t(names, edges);
   for (auto& [k, b] : t.core->blocks)
      for (Size i = 0; i < b.size(); i++) b[i] = make_scalar<Scalar>(double(i % 1000003 + 1), double(i % 7));
   Names order;
   for (auto i : from) order.push_back(names[i]);
   mc::note("large tensor " + show(names, edges) + " -> " + show(order));
   auto q = t.transpose(order);
   mc::check(q.names == order, "large transpose: names");
   for (int i = 0; i < rank; i++) mc::check(q.core->edges[i] == t.core->edges[from[i]], "large transpose: edges");
   expect_reordered(t, q, from);
   mc::state(mc::mix(mc::G.hash_trace(), 3));
   mc::outcome(mc::G.hash_trace());
}

void body() {
   int c = mc::choose(3, "size class");
   if (c == 1) large_case();
   else small_case(c == 2);
}
int main(int c, char** v) { return mc::main(c, v, body); }
