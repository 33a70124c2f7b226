// Naive reference model of a (symmetric, possibly fermionic) tensor: a table from coordinates to numbers.
// Nothing here calls the library's algorithms; only its types (symmetry, edge, name) are used.
#pragma once
#include "mc.hpp"
#ifndef TAT_NOTHING_BITS
#define TAT_NOTHING_BITS 7 // no warnings on the terminal
#endif
#include <TAT/TAT.hpp>
#include <algorithm>

#ifndef SYM
#define SYM No
#endif
#ifndef SCALAR
#define SCALAR double
#endif
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)

using Sym = TAT::MC_CAT(SYM, Symmetry);
using Scalar = SCALAR;
using Name = TAT::DefaultName;
using Size = TAT::Size;
using Rank = TAT::Rank;
using Tensor = TAT::Tensor<Scalar, Sym, Name>;
using Edge = TAT::Edge<Sym>;
using Names = std::vector<Name>;
using PairSet = std::set<std::tuple<Name, Name>>;
constexpr bool is_fermi = TAT::is_fermi_symmetry_v<Sym>;
constexpr bool is_no = std::is_same_v<Sym, TAT::NoSymmetry>;
constexpr bool is_complex = TAT::is_complex_v<Scalar>;
using Real = TAT::real_base_t<Scalar>;

template<typename S>
std::string show_symmetry(const S& s) {
   std::ostringstream o;
   if constexpr (std::is_same_v<S, TAT::NoSymmetry>) o << "-";
   else if constexpr (std::is_same_v<S, TAT::Z2Symmetry>) o << s.z2;
   else if constexpr (std::is_same_v<S, TAT::U1Symmetry>) o << s.u1;
   else if constexpr (std::is_same_v<S, TAT::FermiSymmetry>) o << s.fermi;
   else if constexpr (std::is_same_v<S, TAT::FermiZ2Symmetry>) o << "(" << s.fermi << "," << s.z2 << ")";
   else o << "(" << s.fermi << "," << s.u1 << ")";
   return o.str();
}
inline std::string show(const Sym& s) {
   return show_symmetry(s);
}
// one way to write charges of every kind of symmetry: (first number, second number)
template<typename S = Sym>
S charge(int a, int b = 0) {
   if constexpr (std::is_same_v<S, TAT::NoSymmetry>) return S();
   else if constexpr (std::is_same_v<S, TAT::Z2Symmetry>) return S(a & 1);
   else if constexpr (std::is_same_v<S, TAT::U1Symmetry>) return S(a);
   else if constexpr (std::is_same_v<S, TAT::FermiSymmetry>) return S(a);
   else if constexpr (std::is_same_v<S, TAT::FermiZ2Symmetry>) return S(a, b & 1);
   else return S(a, b);
}
template<typename S>
bool odd_charge(const S& s) {
   if constexpr (TAT::is_fermi_symmetry_v<S>) return s.fermi % 2 != 0;
   else return false;
}
template<typename E>
bool edge_arrow(const E& e) {
   if constexpr (TAT::is_fermi_symmetry_v<typename E::symmetry_type>) return e.arrow;
   else return false;
}
template<typename E>
void edge_set_arrow(E& e, bool a) {
   if constexpr (TAT::is_fermi_symmetry_v<typename E::symmetry_type>) e.arrow = a;
}
template<typename E>
bool edge_directed(const E& e) {
   if constexpr (TAT::is_fermi_symmetry_v<typename E::symmetry_type>) {
      for (auto& [s, d] : e.map)
         if (s.fermi != 0) return true;
   }
   return false;
}
// sectors of an edge; without symmetry the library may be built with something that is not a std::map
template<typename M>
constexpr bool real_map = std::is_same_v<std::decay_t<M>, std::map<Sym, Size>>;
template<typename M>
auto map_erase(M& m, typename M::iterator i) {
   if constexpr (real_map<M>) return m.erase(i);
   else return m.end();
}
template<typename M>
bool map_has(const M& m, const Sym& s) {
   if constexpr (real_map<M>) return m.count(s) != 0;
   else return true;
}
template<typename M>
bool map_empty(const M& m) {
   return m.begin() == m.end();
}
template<typename M>
bool map_equal(const M& a, const M& b) {
   return a == b;
}
inline bool odd(const Sym& s) { return odd_charge(s); }
inline bool get_arrow(const Edge& e) { return edge_arrow(e); }
inline void set_arrow(Edge& e, bool a) { edge_set_arrow(e, a); }
inline bool has_direction(const Edge& e) { return edge_directed(e); }
inline std::string show(const Edge& e) {
   std::string r = is_fermi ? (get_arrow(e) ? "<" : ">") : "";
   r += "{";
   for (auto& [s, d] : e.map) r += (r.back() == '{' ? "" : " ") + (is_no ? std::string() : show(s) + ":") + std::to_string(d);
   return r + "}";
}
inline std::string show(const Name& n) {
   return static_cast<const std::string&>(n);
}
inline std::string show(const Names& v) {
   std::string r = "[";
   for (auto& n : v) r += (r.size() > 1 ? " " : "") + show(n);
   return r + "]";
}
template<typename T>
std::string show_number(const T& x) {
   std::ostringstream o;
   o.precision(17);
   o << x;
   return o.str();
}
inline std::string show(const Names& n, const std::vector<Edge>& e) {
   std::string r;
   for (size_t i = 0; i < n.size(); i++) r += (i ? " " : "") + show(n[i]) + show(e[i]);
   return r;
}

using Point = std::pair<Sym, Size>;
using Key = std::vector<Point>;

struct Ref {
   Names names;
   std::vector<Edge> edges;
   std::map<Key, Scalar> data;

   Rank rank() const { return names.size(); }
   int find(const Name& n) const {
      for (size_t i = 0; i < names.size(); i++)
         if (names[i] == n) return int(i);
      return -1;
   }

   // Visit every coordinate allowed by symmetry (total charge zero), last index fastest within a sector.
   template<typename F>
   static void visit(const std::vector<Edge>& edges, F&& f) {
      Key key(edges.size());
      std::function<void(size_t, Sym)> rec = [&](size_t i, Sym total) {
         if (i == edges.size()) {
            if (total == Sym()) f(key);
            return;
         }
         for (auto& [s, d] : edges[i].map) {
            for (Size k = 0; k < d; k++) {
               key[i] = {s, k};
               rec(i + 1, total + s);
            }
         }
      };
      rec(0, Sym());
   }
   // A sector that no allowed block uses is dropped from its edge.
   static std::vector<Edge> normalize(const std::vector<Edge>& edges) {
      std::vector<std::set<Sym>> used(edges.size());
      std::vector<Sym> current(edges.size());
      std::function<void(size_t, Sym)> rec = [&](size_t i, Sym total) {
         if (i == edges.size()) {
            if (total == Sym())
               for (size_t k = 0; k < edges.size(); k++) used[k].insert(current[k]);
            return;
         }
         for (auto& [s, d] : edges[i].map) {
            current[i] = s;
            rec(i + 1, total + s);
         }
      };
      rec(0, Sym());
      auto result = edges;
      for (size_t i = 0; i < edges.size(); i++) {
         result[i].map.clear();
         for (auto& [s, d] : edges[i].map)
            if (used[i].count(s)) result[i].map[s] = d;
      }
      return result;
   }

   static Ref zeros(const Names& names, const std::vector<Edge>& edges) {
      Ref r;
      r.names = names;
      r.edges = normalize(edges);
      visit(r.edges, [&](const Key& k) { r.data[k] = Scalar(0); });
      return r;
   }
   Scalar get(const Key& k) const {
      auto i = data.find(k);
      return i == data.end() ? Scalar(0) : i->second;
   }
};

template<typename T>
T make_scalar(double a, double b) {
   if constexpr (TAT::is_complex_v<T>) return T(TAT::real_base_t<T>(a), TAT::real_base_t<T>(b));
   else return T(a);
}
template<typename T>
T conj_number(const T& x) {
   if constexpr (TAT::is_complex_v<T>) return std::conj(x);
   else return x;
}
// Small exact numbers, different at every position.
inline Scalar number(uint64_t k, uint64_t salt) {
   uint64_t h = (k + 1) * 0x9E3779B97F4A7C15ull + salt * 0xC2B2AE3D27D4EB4Full;
   h ^= h >> 31;
   h *= 0xBF58476D1CE4E5B9ull;
   h ^= h >> 29;
   int a = int(h % 15) - 7;
   if (a == 0) a = 8;
   int b = int((h >> 20) % 13) - 6;
   return make_scalar<Scalar>(a, b);
}
inline Ref make_ref(const Names& names, const std::vector<Edge>& edges, uint64_t salt) {
   auto r = Ref::zeros(names, edges);
   uint64_t k = 0;
   for (auto& [key, v] : r.data) v = number(k++, salt);
   return r;
}

// row-major position of a coordinate inside its block
inline Size block_offset(const std::vector<Edge>& edges, const Key& key) {
   Size o = 0;
   for (size_t i = 0; i < edges.size(); i++) o = o * edges[i].map.at(key[i].first) + key[i].second;
   return o;
}
template<typename K>
std::vector<Sym> block_key(const K& key) {
   std::vector<Sym> r;
   for (auto& [s, i] : key) r.push_back(s);
   return r;
}

inline Tensor to_tensor(const Ref& r) {
   Tensor t(r.names, r.edges);
   for (auto& [key, v] : r.data) t.core->blocks.at(block_key(key))[block_offset(r.edges, key)] = v;
   return t;
}
template<typename TensorType>
uint64_t hash_tensor(const TensorType& t) {
   uint64_t h = t.names.size();
   for (auto& n : t.names) {
      const std::string& s = static_cast<const std::string&>(n);
      h = mc::hash_bytes(h, s.data(), s.size());
   }
   const auto& core = *t.core;
   for (auto& e : core.edges) {
      h = mc::mix(h, 77);
      if constexpr (TAT::is_fermi_symmetry_v<typename TensorType::symmetry_t>) h = mc::mix(h, e.arrow);
      for (auto& [s, d] : e.map) h = mc::mix(h, d);
   }
   for (auto& [k, b] : core.blocks) {
      h = mc::mix(h, b.size());
      h = mc::hash_bytes(h, b.data(), b.size() * sizeof(b[0]));
   }
   return h;
}

inline Ref from_tensor(const Tensor& t) {
   Ref r;
   r.names = t.names;
   for (auto& e : t.core->edges) r.edges.push_back(e);
   Ref::visit(r.edges, [&](const Key& k) {
      auto found = t.core->blocks.find(block_key(k));
      if (found == t.core->blocks.end()) mc::fail("a block allowed by symmetry is missing");
      auto o = block_offset(r.edges, k);
      if (o >= found->second.size()) mc::fail("a block is smaller than its edges say");
      r.data[k] = found->second[o];
   });
   return r;
}

template<typename T>
bool same_number(const T& a, const T& b, double tolerance) {
   if (tolerance == 0) return a == b;
   double d = std::abs(a - b);
   double s = std::max<double>(1, std::max<double>(std::abs(a), std::abs(b)));
   return d <= tolerance * s; // false for NaN
}

// The whole observable content of a tensor against the model: names, edges, which blocks exist, every number.
inline void expect(const Tensor& t, const Ref& r, const char* what, double tolerance = 0, bool arrows = true) {
   mc::G.comparisons++;
   auto complain = [&](const std::string& m) {
      std::string text = std::string(what) + ": " + m;
      text += "; got " + show(t.names, std::vector<Edge>(t.core->edges.begin(), t.core->edges.end())) + ", expected " + show(r.names, r.edges);
      mc::fail(text);
   };
   if (!t.core) mc::fail(std::string(what) + ": no tensor");
   if (t.names.size() != r.names.size() || !std::equal(t.names.begin(), t.names.end(), r.names.begin())) complain("edge names differ");
   if (t.name_to_index.size() != t.names.size()) complain("name index does not cover the names");
   for (size_t i = 0; i < t.names.size(); i++) {
      auto f = t.name_to_index.find(t.names[i]);
      if (f == t.name_to_index.end() || f->second != i) complain("name index is inconsistent");
   }
   const auto& core = *t.core;
   if (core.edges.size() != r.edges.size()) complain("rank differs");
   size_t volume = 0;
   std::set<std::vector<Sym>> keys;
   for (size_t i = 0; i < r.edges.size(); i++) {
      std::map<Sym, Size> a, b;
      for (auto& [s, d] : core.edges[i].map) a[s] = d;
      for (auto& [s, d] : r.edges[i].map) b[s] = d;
      if (a != b) complain("edge " + std::to_string(i) + " has another shape");
      if (arrows && is_fermi && get_arrow(core.edges[i]) != get_arrow(r.edges[i])) complain("edge " + std::to_string(i) + " has another arrow");
   }
   for (auto& [key, v] : r.data) {
      auto bk = block_key(key);
      auto found = core.blocks.find(bk);
      if (found == core.blocks.end()) complain("a block is missing");
      auto o = block_offset(r.edges, key);
      if (o >= found->second.size()) complain("a block is too small");
      if (!same_number(Scalar(found->second[o]), Scalar(v), tolerance)) {
         std::string where;
         for (auto& [s, i] : key) where += " " + show(s) + "/" + std::to_string(i);
         complain("element at" + where + " is " + show_number(found->second[o]) + " instead of " + show_number(v));
      }
      keys.insert(std::move(bk));
   }
   for (auto& [k, b] : core.blocks) volume += b.size();
   if (volume != r.data.size()) complain("the blocks hold " + std::to_string(volume) + " numbers instead of " + std::to_string(r.data.size()));
   if (!is_no && core.blocks.size() < keys.size()) complain("number of blocks differs");
}

// ---- elementary operations of the model -------------------------------------------------------------------------

// New order of edges; moving two odd elements past one another gives a minus sign.
inline Ref ref_transpose(const Ref& r, const Names& order) {
   Ref q;
   q.names = order;
   std::vector<int> from;
   for (auto& n : order) {
      from.push_back(r.find(n));
      q.edges.push_back(r.edges[from.back()]);
   }
   for (auto& [k, v] : r.data) {
      Key nk;
      bool sign = false;
      for (size_t i = 0; i < from.size(); i++) {
         nk.push_back(k[from[i]]);
         for (size_t j = 0; j < i; j++)
            if (from[j] > from[i] && odd(k[from[j]].first) && odd(k[from[i]].first)) sign = !sign;
      }
      q.data[nk] = sign ? -v : v;
   }
   return q;
}

inline Ref ref_reverse(const Ref& r, const std::set<Name>& which, const std::set<Name>& signed_ones) {
   Ref q = r;
   for (size_t i = 0; i < r.names.size(); i++) {
      if (!which.count(r.names[i])) continue;
      set_arrow(q.edges[i], !get_arrow(q.edges[i]));
      if (signed_ones.count(r.names[i]))
         for (auto& [k, v] : q.data)
            if (odd(k[i].first)) v = -v;
   }
   return q;
}

// Layout of several edges fused into one: charges add; within a charge the combinations follow each other in
// lexicographic order, row-major inside a combination.
inline std::map<Sym, Size> fused_layout(const std::vector<Edge>& parts, std::map<std::vector<Sym>, std::pair<Sym, Size>>& offset) {
   std::map<Sym, Size> result;
   std::vector<Sym> current(parts.size());
   std::function<void(size_t, Sym, Size)> rec = [&](size_t i, Sym total, Size dim) {
      if (i == parts.size()) {
         offset[current] = {total, result[total]};
         result[total] += dim;
         return;
      }
      for (auto& [s, d] : parts[i].map) {
         current[i] = s;
         rec(i + 1, total + s, dim * d);
      }
   };
   rec(0, Sym(), 1);
   return result;
}
inline Size fused_index(const std::vector<Edge>& parts, const Key& sub) {
   Size o = 0;
   for (size_t i = 0; i < parts.size(); i++) o = o * parts[i].map.at(sub[i].first) + sub[i].second;
   return o;
}

struct MergeGroup {
   Name name;
   Names parts;
   bool sign_merge = false; // sign of reversing the order of the parts
};
// Edges of r are already in the final order with the parts of every group adjacent.
// reverse_sign: parts whose alignment to the first directed part carries the sign of a reversed edge.
inline Ref ref_merge_adjacent(const Ref& input, const std::vector<MergeGroup>& groups, const std::set<Name>& reverse_sign, std::vector<bool>* arrow_known = nullptr) {
   Ref r = input;
   Ref q;
   struct Piece {
      size_t begin, end;
      bool merged;
      std::map<std::vector<Sym>, std::pair<Sym, Size>> offset;
      std::vector<Edge> parts;
      bool sign;
   };
   std::vector<Piece> pieces;
   size_t position = 0;
   auto group_at = [&](size_t p) -> const MergeGroup* {
      for (auto& g : groups)
         if (!g.parts.empty() && p < r.names.size() && g.parts.front() == r.names[p]) return &g;
      return nullptr;
   };
   while (position < r.names.size()) {
      Piece piece;
      piece.begin = position;
      if (auto g = group_at(position)) {
         piece.end = position + g->parts.size();
         piece.merged = true;
         piece.sign = g->sign_merge;
         bool fixed = false, arrow = false;
         for (size_t i = piece.begin; i < piece.end; i++) {
            if (!has_direction(r.edges[i])) continue;
            if (!fixed) {
               fixed = true;
               arrow = get_arrow(r.edges[i]);
            } else if (get_arrow(r.edges[i]) != arrow) {
               set_arrow(r.edges[i], arrow);
               if (reverse_sign.count(r.names[i]))
                  for (auto& [k, v] : r.data)
                     if (odd(k[i].first)) v = -v;
            }
         }
         for (size_t i = piece.begin; i < piece.end; i++) piece.parts.push_back(r.edges[i]);
         Edge e;
         if (piece.parts.size() == 1) {
            e = piece.parts[0];
            fixed = true;
            std::map<std::vector<Sym>, std::pair<Sym, Size>> o;
            fused_layout(piece.parts, piece.offset);
         } else {
            e.map = fused_layout(piece.parts, piece.offset);
            set_arrow(e, arrow);
         }
         if (arrow_known) arrow_known->push_back(fixed);
         q.names.push_back(g->name);
         q.edges.push_back(e);
      } else {
         piece.end = position + 1;
         piece.merged = false;
         piece.sign = false;
         q.names.push_back(r.names[position]);
         q.edges.push_back(r.edges[position]);
         if (arrow_known) arrow_known->push_back(true);
      }
      position = piece.end;
      pieces.push_back(std::move(piece));
   }
   // the result holds every allowed element of the fused edges; those without a source are zero
   q = Ref::zeros(q.names, q.edges);
   for (auto& [k, v] : r.data) {
      Key nk;
      bool sign = false;
      for (auto& p : pieces) {
         if (!p.merged) {
            nk.push_back(k[p.begin]);
            continue;
         }
         Key sub(k.begin() + p.begin, k.begin() + p.end);
         auto [s, o] = p.offset.at(block_key(sub));
         nk.push_back({s, o + fused_index(p.parts, sub)});
         if (p.sign)
            for (size_t i = 0; i < sub.size(); i++)
               for (size_t j = i + 1; j < sub.size(); j++)
                  if (odd(sub[i].first) && odd(sub[j].first)) sign = !sign;
      }
      q.data.at(nk) = sign ? -v : v;
   }
   return q;
}

struct SplitGroup {
   Name name;
   Names parts;
   std::vector<Edge> edges; // arrows ignored
   bool sign_split = false;
};
inline Ref ref_split(const Ref& r, const std::vector<SplitGroup>& groups) {
   Ref q;
   std::vector<const SplitGroup*> at(r.names.size(), nullptr);
   for (size_t i = 0; i < r.names.size(); i++) {
      for (auto& g : groups)
         if (g.name == r.names[i]) at[i] = &g;
      if (at[i]) {
         for (size_t j = 0; j < at[i]->parts.size(); j++) {
            q.names.push_back(at[i]->parts[j]);
            Edge e = at[i]->edges[j];
            set_arrow(e, get_arrow(r.edges[i]));
            q.edges.push_back(e);
         }
      } else {
         q.names.push_back(r.names[i]);
         q.edges.push_back(r.edges[i]);
      }
   }
   auto all_edges = q.edges;
   q = Ref::zeros(q.names, q.edges);
   std::vector<std::map<std::vector<Sym>, std::pair<Sym, Size>>> offset(r.names.size());
   for (size_t i = 0; i < r.names.size(); i++)
      if (at[i]) fused_layout(at[i]->edges, offset[i]);
   for (auto& [k, v] : q.data) {
      Key ok;
      size_t p = 0;
      bool sign = false;
      for (size_t i = 0; i < r.names.size(); i++) {
         if (!at[i]) {
            ok.push_back(k[p++]);
            continue;
         }
         Key sub(k.begin() + p, k.begin() + p + at[i]->parts.size());
         p += at[i]->parts.size();
         auto [s, o] = offset[i].at(block_key(sub));
         ok.push_back({s, o + fused_index(at[i]->edges, sub)});
         if (at[i]->sign_split)
            for (size_t a = 0; a < sub.size(); a++)
               for (size_t b = a + 1; b < sub.size(); b++)
                  if (odd(sub[a].first) && odd(sub[b].first)) sign = !sign;
      }
      auto value = r.get(ok);
      v = sign ? -value : value;
   }
   return q;
}

// Contraction: bring the shared edges of the first tensor to its right end and those of the second to its left end,
// in opposite order, and pair neighbours; an edge that leaves the first tensor with arrow false costs the sign of a
// reversed edge. Free edges keep name, arrow and shape: first tensor's, then the second's.
inline Ref ref_contract(const Ref& a, const Ref& b, const std::vector<std::pair<Name, Name>>& pairs) {
   Names free_a, free_b, common_a, common_b;
   for (auto& [x, y] : pairs) {
      common_a.push_back(x);
      common_b.push_back(y);
   }
   for (auto& n : a.names)
      if (std::find(common_a.begin(), common_a.end(), n) == common_a.end()) free_a.push_back(n);
   for (auto& n : b.names)
      if (std::find(common_b.begin(), common_b.end(), n) == common_b.end()) free_b.push_back(n);
   Names order_a = free_a, order_b(common_b.rbegin(), common_b.rend());
   order_a.insert(order_a.end(), common_a.begin(), common_a.end());
   order_b.insert(order_b.end(), free_b.begin(), free_b.end());
   auto ta = ref_transpose(a, order_a), tb = ref_transpose(b, order_b);
   size_t c = pairs.size(), fa = free_a.size(), fb = free_b.size();
   Names names = free_a;
   names.insert(names.end(), free_b.begin(), free_b.end());
   std::vector<Edge> edges(ta.edges.begin(), ta.edges.begin() + fa);
   edges.insert(edges.end(), tb.edges.begin() + c, tb.edges.end());
   auto result = Ref::zeros(names, edges);
   std::multimap<Key, std::pair<Key, Scalar>> index;
   for (auto& [k, v] : tb.data) index.insert({Key(k.begin(), k.begin() + c), {Key(k.begin() + c, k.end()), v}});
   for (auto& [k, v] : ta.data) {
      Key want(c);
      bool sign = false;
      for (size_t i = 0; i < c; i++) {
         auto [s, p] = k[fa + i];
         want[c - 1 - i] = {-s, p};
         if (odd(s) && !get_arrow(ta.edges[fa + i])) sign = !sign;
      }
      auto [lo, hi] = index.equal_range(want);
      for (auto it = lo; it != hi; ++it) {
         Key out(k.begin(), k.begin() + fa);
         out.insert(out.end(), it->second.first.begin(), it->second.first.end());
         auto add = v * it->second.second;
         result.data.at(out) += sign ? -add : add;
      }
   }
   (void)fb;
   return result;
}

// ---- input alphabets --------------------------------------------------------------------------------------------
inline Edge mk(std::vector<std::pair<Sym, Size>> m, bool arrow = false) {
   Edge e;
   std::map<Sym, Size> x;
   for (auto& [s, d] : m) x[s] = d;
   e.map.clear();
   for (auto& [s, d] : x) e.map[s] = d;
   set_arrow(e, arrow);
   return e;
}
// level 0: the smallest interesting shapes; higher levels add more
inline std::vector<Edge> shapes(int level) {
   std::vector<std::vector<std::array<int, 3>>> table; // (charge, charge, dimension)
   if (is_no) {
      table = {{{0, 0, 2}}, {{0, 0, 1}}, {{0, 0, 3}}, {{0, 0, 5}}, {{0, 0, 4}}};
   } else if (std::is_same_v<Sym, TAT::Z2Symmetry>) {
      table = {{{0, 0, 1}, {1, 0, 2}}, {{1, 0, 1}}, {{0, 0, 2}, {1, 0, 1}}, {{0, 0, 2}}, {{0, 0, 1}, {1, 0, 1}}};
   } else if (std::is_same_v<Sym, TAT::U1Symmetry> || std::is_same_v<Sym, TAT::FermiSymmetry>) {
      table = {{{0, 0, 1}, {1, 0, 2}}, {{-1, 0, 2}, {0, 0, 1}}, {{-1, 0, 1}, {0, 0, 2}, {1, 0, 1}}, {{-2, 0, 1}, {1, 0, 1}, {3, 0, 1}}, {{0, 0, 2}}};
   } else if (std::is_same_v<Sym, TAT::FermiZ2Symmetry>) {
      table = {{{0, 0, 1}, {1, 1, 2}}, {{-1, 1, 2}, {0, 0, 1}}, {{-1, 0, 1}, {0, 1, 1}, {1, 1, 1}, {0, 0, 1}}, {{0, 1, 1}, {1, 0, 1}}, {{0, 0, 2}}};
   } else {
      table = {{{0, 0, 1}, {1, 1, 2}}, {{-1, -1, 2}, {0, 0, 1}}, {{-1, 1, 1}, {0, 0, 1}, {1, -1, 1}, {1, 1, 1}}, {{0, -1, 1}, {1, 0, 1}}, {{0, 0, 2}}};
   }
   std::vector<Edge> r;
   for (int i = 0; i < 3 + level && i < int(table.size()); i++) {
      std::vector<std::pair<Sym, Size>> m;
      for (auto& [a, b, d] : table[i]) m.push_back({charge(a, b), Size(d)});
      r.push_back(mk(m));
   }
   return r;
}
// richer shapes, one per position, for tensors of higher rank than the alphabets above are combined to: charges further
// from zero, several sectors of one parity, sectors of different sizes
inline Edge wide_edge(int i, bool arrow = false) {
   std::vector<std::vector<std::array<int, 3>>> table;
   if (is_no) table = {{{0, 0, 3}}, {{0, 0, 2}}, {{0, 0, 4}}, {{0, 0, 2}}, {{0, 0, 1}}, {{0, 0, 3}}};
   else if (std::is_same_v<Sym, TAT::Z2Symmetry>) table = {{{0, 0, 1}, {1, 0, 2}}, {{0, 0, 2}, {1, 0, 1}}, {{0, 0, 1}, {1, 0, 1}}, {{0, 0, 3}, {1, 0, 2}}, {{0, 0, 1}, {1, 0, 3}}};
   else if (std::is_same_v<Sym, TAT::U1Symmetry> || std::is_same_v<Sym, TAT::FermiSymmetry>)
      table = {{{-1, 0, 1}, {0, 0, 2}, {2, 0, 1}}, {{-2, 0, 1}, {1, 0, 2}}, {{-3, 0, 1}, {-1, 0, 1}, {0, 0, 1}, {1, 0, 2}}, {{0, 0, 2}, {3, 0, 1}}, {{-1, 0, 2}, {2, 0, 1}, {0, 0, 1}}};
   else if (std::is_same_v<Sym, TAT::FermiZ2Symmetry>)
      table = {{{0, 0, 1}, {1, 0, 1}, {1, 1, 2}}, {{-1, 1, 1}, {0, 1, 2}}, {{-2, 0, 1}, {-1, 0, 1}, {0, 0, 1}, {1, 1, 1}}, {{0, 0, 2}, {3, 1, 1}}, {{-1, 1, 2}, {2, 1, 1}, {0, 0, 1}}};
   else
      table = {{{0, 0, 1}, {1, 1, 1}, {1, -1, 2}}, {{-1, 1, 1}, {0, 0, 2}}, {{-2, 0, 1}, {-1, -1, 1}, {0, 0, 1}, {1, -1, 1}}, {{0, 0, 2}, {3, 1, 1}}, {{-1, 1, 2}, {2, 0, 1}, {0, 0, 1}}};
   std::vector<std::pair<Sym, Size>> m;
   for (auto& [a, b, d] : table[i % table.size()]) m.push_back({charge(a, b), Size(d)});
   return mk(m, arrow);
}
// which of n edges have arrow true: none, all, every other one, the first half, ...
inline bool wide_arrow(int pattern, int i) {
   return pattern == 0 ? i & 1 : pattern == 1 ? i < 2 : pattern == 2 ? (i % 3) == 1 : i == 0 || i == 3;
}
// the edge a contraction needs opposite to e
inline Edge dual(const Edge& e) {
   std::vector<std::pair<Sym, Size>> m;
   for (auto& [s, d] : e.map) m.push_back({-s, d});
   return mk(m, !get_arrow(e));
}
inline Edge choose_edge(int level, const char* label, bool arrows = true) {
   auto e = mc::pick(shapes(level), label);
   if (is_fermi && arrows) set_arrow(e, mc::flip("arrow"));
   return e;
}
inline const std::vector<std::string>& letters() {
   static std::vector<std::string> l = {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J"};
   return l;
}
inline Names first_names(int n, int from = 0) {
   Names r;
   for (int i = 0; i < n; i++) r.push_back(Name(letters()[from + i].c_str()));
   return r;
}
template<typename V>
V choose_order(V left, const char* label) {
   V r;
   while (!left.empty()) {
      int c = left.size() == 1 ? 0 : mc::choose(int(left.size()), label);
      r.push_back(left[c]);
      left.erase(left.begin() + c);
   }
   return r;
}
inline bool empty_of_blocks(const Ref& r) {
   return r.data.empty();
}

// ---- coordinates as the library's element access wants them -------------------------------------------------------
template<typename T>
auto position_of(const T& tensor_names, const Key& key) {
   std::map<Name, typename Tensor::EdgePoint> p;
   for (size_t i = 0; i < key.size(); i++) {
      if constexpr (is_no) p[tensor_names[i]] = key[i].second;
      else p[tensor_names[i]] = typename Tensor::EdgePoint{key[i].first, key[i].second};
   }
   return p;
}
inline std::map<Name, Sym> sectors_of(const Names& names, const Key& key) {
   std::map<Name, Sym> p;
   for (size_t i = 0; i < key.size(); i++) p[names[i]] = key[i].first;
   return p;
}
inline Ref ref_conjugate(const Ref& r) {
   Ref q;
   q.names = r.names;
   for (auto& e : r.edges) q.edges.push_back(dual(e));
   for (auto& [k, v] : r.data) {
      Key n;
      bool sign = false;
      for (size_t i = 0; i < k.size(); i++) {
         n.push_back({-k[i].first, k[i].second});
         for (size_t j = 0; j < i; j++)
            if (odd(k[i].first) && odd(k[j].first)) sign = !sign;
      }
      auto c = conj_number(v);
      q.data[n] = sign ? -c : c;
   }
   return q;
}
