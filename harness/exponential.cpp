// Matrix exponential and identity of a tensor seen as an operator, against sums of products computed with the table
// model, over every small operator, pairing order and edge order.
#include "ref.hpp"

using Pairs = std::vector<std::pair<Name, Name>>;
constexpr double tolerance = sizeof(Real) == 4 ? 2e-4 : 1e-9;

// Seen as a matrix: the first edges of the pairs give the row, the second ones the column.
using Matrix = std::map<std::pair<Key, Key>, Scalar>;
struct Index {
   std::vector<int> row, column;
};
Index positions(const Ref& r, const Pairs& pairs) {
   Index i;
   for (auto& [a, b] : pairs) {
      i.row.push_back(r.find(a));
      i.column.push_back(r.find(b));
   }
   return i;
}
Key opposite(const Key& k) {
   Key r;
   for (auto& [s, i] : k) r.push_back({-s, i});
   return r;
}
Matrix matrix(const Ref& r, const Pairs& pairs) {
   auto at = positions(r, pairs);
   Matrix m;
   for (auto& [k, v] : r.data) {
      Key row, column;
      for (auto i : at.row) row.push_back(k[i]);
      for (auto i : at.column) column.push_back(k[i]);
      m[{row, opposite(column)}] = v;
   }
   return m;
}
Ref unmatrix(const Matrix& m, const Ref& like, const Pairs& pairs) {
   auto at = positions(like, pairs);
   auto r = like;
   for (auto& [k, v] : r.data) {
      Key row, column;
      for (auto i : at.row) row.push_back(k[i]);
      for (auto i : at.column) column.push_back(k[i]);
      auto f = m.find({row, opposite(column)});
      v = f == m.end() ? Scalar(0) : f->second;
   }
   return r;
}
Matrix multiply(const Matrix& x, const Matrix& y) {
   std::map<Key, std::vector<std::pair<Key, Scalar>>> rows;
   for (auto& [k, v] : y) rows[k.first].push_back({k.second, v});
   Matrix r;
   for (auto& [k, v] : x)
      for (auto& [c, w] : rows[k.second]) r[{k.first, c}] += v * w;
   return r;
}
Matrix unit(const Matrix& like) {
   Matrix r;
   for (auto& [k, v] : like) r[{k.first, k.first}] = Scalar(1);
   return r;
}

void body() {
   int count = mc::choose(4, "pairs");
   auto names = first_names(2 * count);
   std::vector<Edge> edges;
   Pairs pairs;
   bool turned = count && mc::flip("pairs written the other way");
   for (int i = 0; i < count; i++) {
      auto e = count == 3 ? (is_no ? mk({{Sym(), i == 1 ? Size(1) : Size(2)}}) : i == 1 ? shapes(0)[1] : mk({{charge(0), 1}, {charge(1, 1), 1}})) : count == 1 ? choose_edge(2, "edge") : choose_edge(0, "edge", i == 0 || mc::thorough());
      if (count == 3) set_arrow(e, i == 1);
      edges.push_back(e);
      edges.push_back(dual(e));
      if (turned) pairs.push_back({names[2 * i + 1], names[2 * i]});
      else pairs.push_back({names[2 * i], names[2 * i + 1]});
   }
   auto order = choose_order(names, "order");
   int scale = mc::choose(count <= 1 ? sizeof(Real) == 4 ? 4 : 6 : count == 3 ? 1 : 2, "size of the numbers");
   mc::commit();
   auto r = ref_transpose(make_ref(names, edges, 11), order);
   double factor = scale == 0 ? 1. / 64 : scale == 1 ? 1. / 4 : scale == 2 ? 0 : scale == 3 ? 1. / 1024 : scale == 4 ? 1 : 4;
   for (auto& [k, v] : r.data) v *= Real(factor);
   auto t = to_tensor(r);
   PairSet set;
   for (auto& [a, b] : pairs) set.insert({a, b});
   if (mc::replaying()) {
      std::string p;
      for (auto& [a, b] : pairs) p += " " + show(a) + "-" + show(b);
      mc::note("operator " + show(r.names, r.edges) + " pairs" + p + " numbers scaled by " + std::to_string(factor));
   }
   auto identity = t.identity(set);
   expect(identity, unmatrix(unit(matrix(r, pairs)), r, pairs), "identity");
   mc::step();
   auto q = t.exponential(set, 10);
   mc::step();
   std::multiset<Name> g(q.names.begin(), q.names.end()), w(names.begin(), names.end());
   mc::check(g == w, "exponential: the result has other edges");
   auto arranged = ref_transpose(r, q.names);
   auto m = matrix(arranged, pairs);
   int halvings = scale >= 4 ? 10 : 0; // the exponential of a large matrix from squares of that of a small one
   for (auto& [k, v] : m) v /= Real(1 << halvings);
   auto power = unit(m), total = power;
   for (int n = 1; n <= 60; n++) {
      power = multiply(power, m);
      double biggest = 0;
      for (auto& [k, v] : power) {
         v /= Real(n);
         biggest = std::max<double>(biggest, std::abs(v));
         total[k] += v;
      }
      if (biggest < 1e-18) break;
   }
   for (int i = 0; i < halvings; i++) total = multiply(total, total);
   auto want = unmatrix(total, arranged, pairs);
   // relative to the largest element
   double largest = 1;
   for (auto& [k, v] : want.data) largest = std::max<double>(largest, std::abs(v));
   expect(q, ref_transpose(want, q.names), "exponential", tolerance * largest);
   auto rough = t.exponential(set);
   if (scale < 4) expect(rough, ref_transpose(want, rough.names), "exponential with the default number of steps", 0.05 * largest);
   expect(t, r, "operand after exponential");
   mc::state(hash_tensor(t));
   mc::outcome(hash_tensor(identity));
   mc::outcome(hash_tensor(q));
}
int main(int c, char** v) { return mc::main(c, v, body); }
