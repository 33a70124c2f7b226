// Norms, conversion between scalar types, and functions applied to every element.
#include "ref.hpp"

template<typename F>
bool throws(F&& f) {
   try {
      f();
   } catch (const mc::Failure&) {
      throw;
   } catch (const std::exception&) {
      return true;
   }
   return false;
}
template<typename S, typename T>
S narrow(const T& x) {
   if constexpr (TAT::is_complex_v<T> && !TAT::is_complex_v<S>) return S(x.real());
   else return S(x);
}
template<typename S>
void conversion(const Tensor& t, const Ref& r) {
   auto q = t.template to<S>();
   static_assert(std::is_same_v<decltype(q), TAT::Tensor<S, Sym, Name>>);
   mc::check(q.names == r.names && q.name_to_index.size() == r.names.size(), "to<>: names");
   for (size_t i = 0; i < r.names.size(); i++) mc::check(q.name_to_index.at(r.names[i]) == i, "to<>: name index");
   mc::check(q.core->edges.size() == r.edges.size(), "to<>: rank");
   size_t total = 0, n = 0;
   for (auto& [k, b] : q.core->blocks) total += b.size();
   for (auto& [k, v] : r.data) {
      auto f = q.core->blocks.find(block_key(k));
      mc::check(f != q.core->blocks.end(), "to<>: missing block");
      mc::check(f->second.at(block_offset(r.edges, k)) == narrow<S>(v), "to<>: number");
      n++;
   }
   mc::check(total == n, "to<>: number of elements");
   for (size_t i = 0; i < r.edges.size(); i++) mc::check(q.core->edges[i] == r.edges[i], "to<>: edge");
}
template<int p>
void norm_case(const Tensor& t, const Ref& r) {
   long double want = 0;
   for (auto& [k, v] : r.data) {
      long double a = std::abs(std::complex<long double>(v));
      if (p == -1) want = std::max(want, a);
      else if (p == 0) want += 1;
      else want += std::pow(a, (long double)p);
   }
   if (p > 0) want = std::pow(want, 1.0L / p);
   double got = t.template norm<p>();
   mc::check(std::abs(got - double(want)) <= (sizeof(Real) == 4 ? 2e-6 : 1e-14) * (1 + double(want)), [&] {
      return "norm<" + std::to_string(p) + "> is " + std::to_string(got) + " instead of " + std::to_string(double(want));
   });
   static_assert(std::is_same_v<decltype(t.template norm<p>()), Real>);
}
void body() {
   bool wide = mc::flip("wide");
   int rank = wide ? 4 + mc::choose(2, "rank") : mc::choose(mc::thorough() ? 5 : 4, "rank");
   int first = wide ? mc::choose(5, "first shape") : 0, arrows = wide && is_fermi ? mc::choose(4, "arrows") : 0;
   std::vector<Edge> edges;
   for (int i = 0; i < rank; i++) edges.push_back(wide ? wide_edge(i + first, wide_arrow(arrows, i)) : choose_edge(rank <= 2 ? 2 : 0, "edge", rank <= 2));
   auto names = first_names(rank);
   int contents = mc::choose(7, "contents");
   mc::commit();
   if (mc::replaying()) mc::note("tensor " + show(names, edges) + " contents " + std::to_string(contents));
   auto r = make_ref(names, edges, 61);
   int i = 0, n = int(r.data.size());
   for (auto& [k, v] : r.data) {
      if (contents == 1) v = Scalar(0);
      if (contents == 2 && i != n - 1) v = Scalar(0); // only the last element
      if (contents == 3) v = v / Real(3);
      if (contents == 4 && i) v = Scalar(0);      // only the first one
      if (contents == 5) v = Scalar(Real(n - i)); // falling
      if (contents == 6) v = make_scalar<Scalar>(-1 - i, i); // rising in magnitude
      i++;
   }
   auto t = to_tensor(r);
   norm_case<-1>(t, r);
   norm_case<0>(t, r);
   norm_case<1>(t, r);
   norm_case<2>(t, r);
   norm_case<3>(t, r);
   norm_case<4>(t, r);
   if constexpr (!is_complex) {
      conversion<float>(t, r);
      conversion<double>(t, r);
   }
   conversion<std::complex<float>>(t, r);
   conversion<std::complex<double>>(t, r);
   if constexpr (is_complex) {
      conversion<float>(t, r);
      conversion<double>(t, r);
   }
   expect(t, r, "operand");
   // functions of one element, called exactly once per element
   auto f = r;
   for (auto& [k, v] : f.data) v = v * v + Scalar(1);
   long calls = 0;
   auto function = [&](Scalar x) { calls++; return x * x + Scalar(1); };
   expect(t.map(function), f, "map");
   mc::check(calls == n, "map calls the function another number of times");
   expect(t, r, "operand of map");
   auto u = t;
   calls = 0;
   mc::check(&u.transform(function) == &u, "transform does not return the tensor");
   mc::check(calls == n, "transform calls the function another number of times");
   expect(u, f, "transform");
   expect(t, r, "tensor that shared storage with the one transformed");
   expect(to_tensor(r).transform(function), f, "transform of a temporary");
   // generators: every element gets its own call, blocks in order of charge, elements in row order
   auto g = r;
   std::vector<std::vector<Sym>> order;
   std::map<std::vector<Sym>, std::map<Size, Key>> layout;
   for (auto& [k, v] : r.data) layout[block_key(k)][block_offset(r.edges, k)] = k;
   int counter = 0;
   for (auto& [b, l] : layout)
      for (auto& [o, k] : l) g.data.at(k) = Scalar(Real(3 + 2 * counter++));
   auto x = t, y = t, z = t;
   int next = 3;
   x.set([&] { next += 2; return Scalar(Real(next - 2)); });
   expect(x, g, "set");
   y.test(Scalar(3), Scalar(2));
   expect(y, g, "test");
   z.zero();
   expect(z, Ref::zeros(names, edges), "zero");
   expect(t, r, "tensor that shared storage with the ones set");
   auto s = t.same_shape();
   mc::check(s.names == t.names, "same_shape: names");
   s.zero();
   expect(s, Ref::zeros(names, edges), "same_shape");
   // a tensor with one element is a number, and no other is
   mc::check(t.is_scalar() == (n == 1), "is_scalar");
   if (n == 1) mc::check(Scalar(t) == r.data.begin()->second, "conversion to a number");
   else mc::check(throws([&] { (void)Scalar(t); }), "a tensor with several elements turns into a number");
   if (rank == 0) expect(Tensor(Scalar(5)), [&] { auto q = r; q.data.begin()->second = Scalar(5); return q; }(), "number as tensor");
   mc::state(hash_tensor(t));
   mc::outcome(hash_tensor(u));
}
int main(int argc, char** argv) { return mc::main(argc, argv, body); }
