// Which blocks a tensor has, where its elements are, and that element access addresses exactly the named coordinate.
#include "ref.hpp"
#include <list>

template<typename F>
bool throws(F&& f) {
   try {
      f();
   } catch (const mc::Failure&) {
      throw;
   } catch (const std::exception&) {
      return true;
   }
   return false;
}
template<typename E>
E reversed_if_negative(E e) {
   if constexpr (TAT::is_fermi_symmetry_v<typename E::symmetry_type>) {
      for (auto& [s, d] : e.map)
         if (s.fermi < 0) {
            e.arrow = !e.arrow;
            break;
         }
   }
   return e;
}
void shape_case() {
   bool wide = mc::flip("wide");
   int rank = wide ? 4 + mc::choose(3, "rank") : mc::choose(mc::thorough() ? 6 : 5, "rank");
   int first = wide ? mc::choose(5, "first shape") : 0, arrows = wide && is_fermi ? mc::choose(4, "arrows") : 0;
   std::vector<Edge> edges;
   auto alphabet = shapes(rank <= 3 ? 2 : 0);
   if (rank <= 2 && !is_no) {
      // several negative charges, and a sector that is listed but has no positions
      alphabet.push_back(mk({{charge(-2), 1}, {charge(-1, 1), 2}, {charge(0), 1}}));
      alphabet.push_back(mk({{charge(2), 1}, {charge(1, -1), 2}, {charge(0), 0}}));
   }
   for (int i = 0; i < rank; i++) {
      auto e = wide ? wide_edge(i + first, wide_arrow(arrows, i)) : mc::pick(alphabet, "edge");
      if (is_fermi && rank <= 3) set_arrow(e, mc::flip("arrow"));
      edges.push_back(e);
   }
   bool automatic = is_fermi && mc::flip("automatic arrows");
   int container = rank <= 2 ? mc::choose(2, "container") : 0;
   mc::commit();
   auto names = first_names(rank);
   auto expected_edges = edges;
   if (automatic)
      for (auto& e : expected_edges) e = reversed_if_negative(e);
   auto r = make_ref(names, expected_edges, 11);
   if (mc::replaying()) mc::note("tensor " + show(names, edges));
   Tensor t;
   if (container) t = Tensor(std::list<Name>(names.begin(), names.end()), std::list<Edge>(edges.begin(), edges.end()), automatic);
   else t = Tensor(names, edges, automatic);
   mc::check(t.is_valid(), "a tensor just made is not valid");
   // write every element through at(), one by one: exactly that element changes
   t.zero();
   auto now = Ref::zeros(names, expected_edges);
   expect(t, now, "zeros");
   bool few = r.data.size() <= 24;
   for (auto& [k, v] : r.data) {
      t.at(position_of(names, k)) = v;
      now.data[k] = v;
      if (few) expect(t, now, "after writing one element");
   }
   expect(t, r, "after writing all elements");
   const Tensor& c = t;
   for (auto& [k, v] : r.data) {
      auto p = position_of(names, k);
      mc::check(c.at(p) == v, "at() of a const tensor");
      mc::check(c.const_at(p) == v, "const_at()");
      mc::check(t.at(p) == v, "at()");
      auto b = sectors_of(names, k);
      auto o = block_offset(r.edges, k);
      mc::check(c.block(b)[o] == v && c.const_block(b)[o] == v && t.block(b)[o] == v, "block()");
   }
   // the same element by name, whatever the order of the edges
   if (rank >= 2 && !is_fermi) {
      Names order(names.rbegin(), names.rend());
      auto q = t.transpose(order);
      for (auto& [k, v] : r.data) mc::check(q.const_at(position_of(names, k)) == v, "element by name in a transposed tensor");
   }
   // coordinates that no block holds, and missing names
   if constexpr (!is_no) {
      auto full = Ref::normalize(expected_edges);
      std::function<void(size_t, Key&, Sym)> rec = [&](size_t i, Key& k, Sym total) {
         if (i == edges.size()) {
            if (!(total == Sym())) {
               mc::check(throws([&] { (void)c.const_at(position_of(names, k)); }), "an element forbidden by symmetry was given");
               mc::check(throws([&] { (void)c.const_block(sectors_of(names, k)); }), "a block forbidden by symmetry was given");
            }
            return;
         }
         for (auto& [s, d] : full[i].map) {
            k[i] = {s, 0};
            rec(i + 1, k, total + s);
         }
      };
      Key k(edges.size());
      rec(0, k, Sym());
   }
   if (rank > 0 && !r.data.empty()) {
      auto p = position_of(names, r.data.begin()->first);
      p.erase(names[rank - 1]);
      mc::check(throws([&] { (void)c.const_at(p); }), "an element was given without naming every edge");
   }
   // the only element
   size_t volume = r.data.size();
   mc::check(t.is_scalar() == (volume == 1), "is_scalar()");
   if (volume == 1) mc::check(Scalar(t) == r.data.begin()->second, "conversion to a number");
   else mc::check(throws([&] { (void)Scalar(t); }), "a tensor with several elements became a number");
   expect(t, r, "after reading");
   mc::step(long(r.data.size()) * 5);
   mc::state(hash_tensor(t));
   mc::outcome(hash_tensor(t));
}
void one_case() {
   int rank = mc::choose(4, "rank");
   std::vector<Sym> charges;
   std::vector<TAT::Arrow> arrows;
   Sym total = Sym();
   for (int i = 0; i < rank; i++) {
      Sym s = i + 1 == rank ? -total : charge(mc::choose(3, "charge") - 1, i & 1);
      if (is_no) s = Sym();
      total += s;
      charges.push_back(s);
      arrows.push_back(is_fermi && mc::flip("arrow"));
   }
   mc::commit();
   auto names = first_names(rank);
   std::vector<Edge> edges;
   for (int i = 0; i < rank; i++) edges.push_back(mk({{charges[i], 1}}, arrows[i]));
   auto r = Ref::zeros(names, edges);
   Scalar value = make_scalar<Scalar>(7, -3);
   mc::check(r.data.size() == 1, "driver: not one element");
   r.data.begin()->second = value;
   Tensor t = is_fermi ? Tensor::one(value, names, charges, arrows) : is_no ? Tensor::one(value, names) : Tensor::one(value, names, charges);
   expect(t, r, "one()");
   mc::check(Scalar(t) == value, "one() as a number");
   if (rank == 0) {
      Tensor n(value);
      expect(n, r, "tensor from a number");
      mc::check(Scalar(n) == value, "number back from a tensor");
   }
   mc::step();
   mc::state(hash_tensor(t));
}
void body() {
   if (mc::choose(2, "kind") == 0) shape_case();
   else one_case();
}
int main(int c, char** v) { return mc::main(c, v, body); }
