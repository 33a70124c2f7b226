// shrink takes the slice of a tensor at given positions of some edges, expand puts a tensor into a larger one at given positions.
#include "ref.hpp"

template<typename F>
bool throws(F&& f) {
   try {
      f();
   } catch (const mc::Failure&) {
      throw;
   } catch (const std::exception&) {
      return true;
   }
   return false;
}
using Position = std::pair<Sym, Size>;
template<typename P>
typename Tensor::EdgePoint point(const P& p) {
   if constexpr (is_no) return p.second;
   else return {p.first, p.second};
}
template<typename P>
typename Tensor::EdgePointWithArrow wide_point(const P& p, Size dimension, bool arrow) {
   if constexpr (is_no) return {p.second, dimension};
   else if constexpr (is_fermi) return {arrow, p.first, p.second, dimension};
   else return {p.first, p.second, dimension};
}
template<typename E>
Edge one_sector(const E& s, Size d, bool arrow) {
   return mk({{s, d}}, arrow);
}
Ref one_hot(const Names& names, const std::vector<Edge>& edges, const Key& at) {
   auto r = Ref::zeros(names, edges);
   r.data.at(at) = Scalar(1);
   return r;
}
void shrink_case() {
   bool wide = mc::flip("wide");
   int rank = wide ? 4 : mc::choose(mc::thorough() ? 5 : 4, "rank");
   int first = wide ? mc::choose(3, "first shape") : 0, arrows = wide && is_fermi ? mc::choose(4, "arrows") : 0;
   auto names = first_names(rank);
   std::vector<Edge> edges;
   for (int i = 0; i < rank; i++) edges.push_back(wide ? wide_edge(i + first, wide_arrow(arrows, i)) : choose_edge(rank <= 2 ? 2 : 0, "edge", rank <= 2 || mc::thorough()));
   if (!wide && rank >= 3 && is_fermi && !mc::thorough()) {
      bool a = mc::flip("arrow pattern");
      for (int i = 0; i < rank; i++) set_arrow(edges[i], a != (i % 2 == 1));
   }
   auto r = make_ref(names, edges, 21);
   std::map<Name, typename Tensor::EdgePoint> configure;
   Names chosen;
   std::vector<Edge> helper_edges;
   Key at;
   Sym total;
   for (int i = 0; i < rank; i++) {
      std::vector<Position> positions;
      for (auto& [s, d] : r.edges[i].map)
         for (Size k = 0; k < d; k++) positions.push_back({s, k});
      int c = mc::choose(int(positions.size()) + 1, "position");
      if (c == 0) continue;
      auto& p = positions[c - 1];
      configure[names[i]] = point(p);
      chosen.push_back(names[i]);
      helper_edges.push_back(one_sector(-p.first, r.edges[i].map.at(p.first), !get_arrow(r.edges[i])));
      at.push_back({-p.first, p.second});
      total += p.first;
   }
   int mode = mc::choose(is_fermi ? 3 : 2, "new edge: none, arrow, arrow");
   mc::commit();
   Name fresh("N");
   if (mc::replaying()) mc::note("tensor " + show(names, edges) + " at " + show(chosen) + " mode " + std::to_string(mode));
   auto t = to_tensor(r);
   if (mode == 0 && total != Sym()) {
      mc::check(throws([&] { (void)t.shrink(configure); }), "a slice of non-zero charge without an edge to carry it is not refused");
      expect(t, r, "operand");
      return;
   }
   Ref helper;
   Names helper_names = chosen;
   if (mode) {
      helper_names.push_back(fresh);
      helper_edges.push_back(one_sector(total, 1, mode == 2));
      at.push_back({total, 0});
   }
   helper = one_hot(helper_names, helper_edges, at);
   std::vector<std::pair<Name, Name>> pairs;
   for (auto& n : chosen) pairs.push_back({n, n});
   auto expected = ref_contract(helper, r, pairs);
   // without fermions this is plainly the slice
   if (!is_fermi) {
      std::map<Key, Scalar> slice;
      for (auto& [k, v] : r.data) {
         Key out;
         if (mode) out.push_back({total, 0});
         bool match = true;
         for (int i = 0, j = 0; i < rank; i++) {
            if (j < int(chosen.size()) && names[i] == chosen[j]) {
               match = match && k[i].first == -at[j].first && k[i].second == at[j].second;
               j++;
            } else {
               out.push_back(k[i]);
            }
         }
         if (match) slice[out] = v;
      }
      for (auto& [k, v] : expected.data) {
         auto f = slice.find(k);
         mc::check(v == (f == slice.end() ? Scalar(0) : f->second), "model: slice and contraction with a unit vector differ");
      }
   }
   auto result = mode ? t.shrink(configure, fresh, mode == 2) : t.shrink(configure);
   expect(result, expected, "shrink");
   expect(t, r, "operand");
   mc::state(mc::mix(hash_tensor(t), mode));
   mc::outcome(hash_tensor(result));
}
void expand_case() {
   bool wide = mc::flip("wide"); // three new edges beside three richer ones
   int rank = wide ? 3 : mc::choose(mc::thorough() ? 4 : 3, "rank of the rest");
   int first = wide ? mc::choose(3, "first shape") : 0, arrows = wide && is_fermi ? mc::choose(2, "arrows") : 0;
   std::vector<Edge> edges;
   for (int i = 0; i < rank; i++) edges.push_back(wide ? wide_edge(i + first, wide_arrow(arrows, i)) : choose_edge(rank <= 1 ? 2 : 0, "edge"));
   int extra = wide ? 3 : mc::choose(mc::thorough() ? 4 : 3, "new edges");
   bool old = mc::flip("replaces an edge of dimension one");
   std::map<Name, typename Tensor::EdgePointWithArrow> configure;
   Names helper_names;
   std::vector<Edge> helper_edges;
   Key at;
   Sym total;
   std::vector<Sym> charges = {charge(0, 0), charge(1, 1), charge(-1, 0)};
   // the names sort differently from how they are first used, the library takes them in the order of the container
   std::vector<Name> fresh = {Name("N2"), Name("N1"), Name("N3")};
   std::map<Name, std::tuple<bool, Sym, Size, Size>> plan;
   for (int i = 0; i < extra; i++) {
      auto s = is_no ? Sym() : charges[mc::choose(3, "charge")];
      auto d = wide ? Size(1 + (i + 1) % 3) : Size(1 + mc::choose(3, "dimension"));
      auto k = wide ? d - 1 : Size(mc::choose(int(d), "index"));
      bool arrow = is_fermi && mc::flip("arrow");
      plan[fresh[i]] = {arrow, s, k, d};
      total += s;
   }
   int where = old ? mc::choose(rank + 1, "place of the old edge") : 0;
   bool old_arrow = old && is_fermi && mc::flip("arrow of the old edge");
   bool wrong = old && !is_no && mc::flip("old edge of another charge");
   mc::commit();
   for (auto& [n, p] : plan) {
      auto [arrow, s, k, d] = p;
      configure[n] = wide_point(Position(s, k), d, arrow);
      helper_names.push_back(n);
      helper_edges.push_back(one_sector(s, d, arrow));
      at.push_back({s, k});
   }
   auto names = first_names(rank);
   Name old_name("O");
   if (old) {
      names.insert(names.begin() + where, old_name);
      edges.insert(edges.begin() + where, one_sector(wrong ? total + charge(1, 1) : total, 1, old_arrow));
   }
   auto r = make_ref(names, edges, 23);
   if (mc::replaying()) mc::note("tensor " + show(names, edges) + " plus " + show(helper_names, helper_edges));
   auto t = to_tensor(r);
   if (old && map_empty(r.edges[where].map)) mc::skip(); // no element at all, the edge has no dimension any more
   if (wrong || (!old && total != Sym())) {
      mc::check(
            throws([&] { (void)(old ? t.expand(configure, old_name) : t.expand(configure)); }),
            "new edges whose total charge is not that of the edge they replace are not refused");
      expect(t, r, "operand");
      return;
   }
   std::vector<std::pair<Name, Name>> pairs;
   if (old) {
      helper_names.push_back(old_name);
      helper_edges.push_back(one_sector(-total, 1, !old_arrow));
      at.push_back({-total, 0});
      pairs.push_back({old_name, old_name});
   }
   auto expected = ref_contract(one_hot(helper_names, helper_edges, at), r, pairs);
   if (!is_fermi) { // every element of the tensor appears once, at the requested position
      size_t count = 0;
      for (auto& [k, v] : expected.data) {
         bool match = true;
         for (int j = 0; j < extra; j++) match = match && k[j].first == at[j].first && k[j].second == at[j].second;
         Key back(k.begin() + extra, k.end());
         if (old) back.insert(back.begin() + where, {total, 0});
         mc::check(v == (match ? r.data.at(back) : Scalar(0)), "model: embedding and contraction with a unit vector differ");
         count += match;
      }
      mc::check(count == r.data.size(), "model: embedding loses elements");
   }
   auto result = old ? t.expand(configure, old_name) : t.expand(configure);
   expect(result, expected, "expand");
   expect(t, r, "operand");
   mc::state(hash_tensor(t));
   mc::outcome(hash_tensor(result));
}
int main(int argc, char** argv) {
   return mc::main(argc, argv, [] {
      if (mc::flip("expand")) expand_case();
      else shrink_case();
   });
}
