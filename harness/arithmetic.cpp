// Elementwise arithmetic between tensors and numbers, out of place and in place, mixed scalar types.
// SCALAR1 and SCALAR2 are the operand types, SCALAR is the type of the out-of-place result.
#include "ref.hpp"
#ifndef SCALAR1
#define SCALAR1 SCALAR
#endif
#ifndef SCALAR2
#define SCALAR2 SCALAR
#endif
using S1 = SCALAR1;
using S2 = SCALAR2;
static_assert(std::is_same_v<Scalar, std::common_type_t<S1, S2>>);
template<typename S>
using TensorOf = TAT::Tensor<S, Sym, Name>;

template<typename S, typename T>
S narrow(const T& x) {
   if constexpr (TAT::is_complex_v<T> && !TAT::is_complex_v<S>) return S(x.real());
   else return S(x);
}
template<typename S>
TensorOf<S> build(Ref& r) { // r keeps what the tensor can hold
   TensorOf<S> t(r.names, r.edges);
   for (auto& [key, v] : r.data) {
      S x = narrow<S>(v);
      v = Scalar(x);
      t.core->blocks.at(block_key(key))[block_offset(r.edges, key)] = x;
   }
   return t;
}
template<typename S>
Tensor widen(const TensorOf<S>& t) {
   Tensor w(t.names, t.core->edges);
   for (auto& [k, b] : t.core->blocks) {
      auto& d = w.core->blocks.at(k);
      mc::check(d.size() == b.size(), "a block has another size than its edges say");
      for (size_t i = 0; i < b.size(); i++) d[i] = Scalar(b[i]);
   }
   return w;
}
Scalar apply(int op, const Scalar& a, const Scalar& b) {
   return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
}
template<typename A, typename B>
auto out_of_place(int op, const A& a, const B& b) {
   return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
}
template<typename A, typename B>
A& in_place(int op, A& a, const B& b) {
   return op == 0 ? a += b : op == 1 ? a -= b : op == 2 ? a *= b : a /= b;
}
template<typename E>
E drop(E e, bool first) {
   if constexpr (!is_no) {
      if (e.map.size() >= 2) e.map.erase(first ? e.map.begin() : std::prev(e.map.end()));
      else mc::skip();
   }
   return e;
}
constexpr double slack = sizeof(Real) == 4 ? 1e-6 : 1e-14;

void body() {
   int form = mc::choose(7, "form"); // t.t, t.n, n.t, t.=t, t.=n, t.=t itself, t.=an element of t
   int op = mc::choose(4, "operator");
   bool wide = mc::flip("wide");
   int rank = wide ? 4 + mc::choose(2, "rank") : mc::choose(mc::thorough() ? 5 : 4, "rank");
   int first = wide ? mc::choose(2, "first shape") : 0, arrows = wide && is_fermi ? mc::choose(2, "arrows") : 0;
   auto names = first_names(rank);
   std::vector<Edge> e1, e2;
   for (int i = 0; i < rank; i++) {
      auto e = wide ? wide_edge(i + 2 * first, wide_arrow(arrows, i)) : rank <= 2 ? choose_edge(2, "edge") : choose_edge(0, "edge", rank <= 3);
      e1.push_back(e);
      e2.push_back(e);
   }
   bool two = form == 0 || form == 3;
   int relation = 0; // 1, 2: the first/second operand misses a sector; 3: each misses one
   if (form == 0 && rank > 0 && !is_no) relation = mc::choose(4, "sectors");
   if (relation) {
      int where = rank > 1 ? mc::choose(rank, "where") : 0;
      if (relation & 1) e1[where] = drop(e1[where], true);
      if (relation & 2) e2[where] = drop(e2[where], false);
   }
   auto order = two && !(wide && rank == 5 && relation) ? choose_order(names, "order") : names;
   bool shared = form >= 3 && mc::flip("shared storage");
   int which = form == 6 ? mc::choose(3, "element") : 0;
   mc::commit();
   auto r1 = make_ref(names, e1, 3), r2 = ref_transpose(make_ref(names, e2, 5), order);
   if (!(form == 0 && relation)) r2 = ref_transpose(make_ref(names, r1.edges, 5), order);
   auto t1 = build<S1>(r1);
   auto t2 = build<S2>(r2);
   S2 n2 = narrow<S2>(make_scalar<Scalar>(-3, 2));
   S1 n1 = narrow<S1>(make_scalar<Scalar>(5, -2));
   static const char* ops[] = {"+", "-", "*", "/"};
   if (mc::replaying()) mc::note(std::string(ops[op]) + " form " + std::to_string(form) + " " + show(r1.names, r1.edges) + " and " + show(r2.names, r2.edges));
   auto keep1 = r1, keep2 = r2;
   auto aligned = ref_transpose(r2, names);
   if (form == 0) {
      auto edges = r1.edges;
      for (int i = 0; i < rank; i++)
         for (auto& [s, d] : aligned.edges[i].map)
            if (edges[i].map.find(s) == edges[i].map.end()) edges[i].map.insert({s, d});
      auto want = Ref::zeros(names, edges);
      for (auto& [k, v] : want.data) {
         auto a = r1.data.find(k), b = aligned.data.find(k);
         if (op == 3 && b == aligned.data.end()) mc::skip(); // division by an absent block is not specified
         v = a == r1.data.end() && b == aligned.data.end() ? Scalar(0) : apply(op, r1.get(k), aligned.get(k));
      }
      auto q = out_of_place(op, t1, t2);
      static_assert(std::is_same_v<decltype(q), Tensor>);
      expect(q, want, "result", slack);
      mc::state(hash_tensor(q));
   } else if (form == 1 || form == 2) {
      auto want = r1;
      if (form == 1) {
         for (auto& [k, v] : want.data) v = apply(op, v, Scalar(n2));
         auto q = out_of_place(op, t1, n2);
         static_assert(std::is_same_v<decltype(q), Tensor>);
         expect(q, want, "result", slack);
         mc::state(hash_tensor(q));
      } else {
         want = r2;
         for (auto& [k, v] : want.data) v = apply(op, Scalar(n1), v);
         auto q = out_of_place(op, n1, t2);
         static_assert(std::is_same_v<decltype(q), Tensor>);
         expect(q, want, "result", slack);
         mc::state(hash_tensor(q));
      }
   } else if constexpr (std::is_same_v<S1, Scalar>) {
      auto alias = shared ? t1 : TensorOf<S1>(S1(1));
      auto want = r1;
      const S1* own = nullptr;
      Scalar own_value = 0;
      if (form == 6) { // the first, a middle and the last element, looked up in the tensor itself
         std::vector<const S1*> all;
         for (auto& [k, b] : t1.core->blocks)
            for (auto& v : b) all.push_back(&v);
         if (all.empty()) mc::skip();
         own = all[which == 0 ? 0 : which == 1 ? all.size() / 2 : all.size() - 1];
         own_value = Scalar(*own);
      }
      for (auto& [k, v] : want.data) v = apply(op, v, form == 3 ? aligned.get(k) : form == 4 ? Scalar(n2) : form == 6 ? own_value : v);
      TensorOf<S1>* answer;
      if (form == 3) answer = &in_place(op, t1, t2);
      else if (form == 4) answer = &in_place(op, t1, n2);
      else if (form == 6) answer = &in_place(op, t1, *own);
      else if (shared) answer = &in_place(op, t1, alias);
      else answer = &in_place(op, t1, t1);
      mc::check(answer == &t1, "an in-place operator returned something else than its operand");
      expect(widen<S1>(t1), want, "operand changed in place", slack);
      if (shared) expect(widen<S1>(alias), keep1, "other tensor that shared the storage");
      mc::state(hash_tensor(t1));
      keep1 = want;
   } else {
      mc::skip();
   }
   expect(widen<S1>(t1), keep1, "first operand", form >= 3 ? slack : 0);
   expect(widen<S2>(t2), keep2, "second operand");
   mc::step();
   mc::outcome(mc::G.hash_trace());
}
int main(int c, char** v) { return mc::main(c, v, body); }
