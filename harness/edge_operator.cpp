// The all-in-one edge operator against its definition: rename (and cut), split, reverse, reorder, align arrows, fuse,
// one elementary step of the model after the other, over every combination of options on small tensors.
#include "ref.hpp"

// keep only the first cut[s] elements of a sector (0 removes it)
Ref ref_cut(const Ref& r, int position, const std::map<Sym, Size>& cut) {
   auto edges = r.edges;
   auto& m = edges[position].map;
   for (auto it = m.begin(); it != m.end();) {
      auto f = cut.find(it->first);
      if (f == cut.end()) ++it;
      else if (f->second == 0) it = map_erase(m, it);
      else {
         it->second = std::min<Size>(it->second, f->second);
         ++it;
      }
   }
   // cutting happens before anything else: sectors that lose every partner vanish only in the final result
   Ref q;
   q.names = r.names;
   q.edges = edges;
   for (auto& [k, v] : r.data) {
      auto f = q.edges[position].map.find(k[position].first);
      if (f != q.edges[position].map.end() && k[position].second < f->second) q.data[k] = v;
   }
   return q;
}

template<typename S>
constexpr bool simple_nosymmetry() {
#ifdef TAT_USE_SIMPLE_NOSYMMETRY
   return std::is_same_v<S, TAT::NoSymmetry>;
#else
   return false;
#endif
}

void single_case() {
   int atoms = 1 + mc::choose(mc::thorough() ? 4 : 3, "atoms");
   auto names = first_names(atoms);
   std::vector<Edge> edges;
   for (int i = 0; i < atoms; i++) {
      auto e = shapes(0)[mc::choose(atoms >= 3 || is_no ? 2 : 3, "edge")];
      if (is_fermi) set_arrow(e, atoms >= 3 ? (i * 3 + atoms) & 1 : mc::flip("arrow"));
      edges.push_back(e);
   }
   // which adjacent atoms the operand holds already fused
   int fused_begin = 0, fused_end = 0;
   if (atoms >= 2) {
      int f = mc::choose(atoms, "fused in the operand");
      if (f > 0) {
         fused_begin = f - 1;
         fused_end = std::min(atoms, f + 1);
      }
      if (atoms == 3 && f == 2) fused_begin = mc::flip("fuse all three") ? 0 : 1;
   }
   bool fused = fused_end > fused_begin;
   bool split = fused && mc::flip("split");
   bool rename = mc::flip("rename");
   int cut_mode = is_no ? 0 : mc::choose(4, "cut");
   if (cut_mode && split && atoms >= 3 && !mc::thorough()) mc::skip();
   // build the operand
   auto base = make_ref(names, edges, 5);
   Ref start = base;
   if (fused) {
      MergeGroup g;
      g.name = Name("X");
      g.parts = Names(names.begin() + fused_begin, names.begin() + fused_end);
      start = ref_merge_adjacent(base, {g}, {});
   }
   // names after the rename: the edge at position 0 becomes R0 (if it is the one to split, the split uses the new name)
   std::map<Name, Name> rename_map;
   auto renamed = start;
   if (rename) {
      int where = start.names.size() > 1 ? mc::choose(int(start.names.size()), "renamed edge") : 0;
      rename_map[start.names[where]] = Name("R");
      renamed.names[where] = Name("R");
   }
   // after the split
   std::vector<SplitGroup> split_groups;
   std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>> split_map;
   Names after_split = renamed.names;
   int fused_position = -1;
   if (fused) fused_position = fused_begin;
   if (split) {
      SplitGroup s;
      s.name = renamed.names[fused_position];
      for (int i = fused_begin; i < fused_end; i++) {
         s.parts.push_back(names[i]);
         s.edges.push_back(base.edges[i]);
         TAT::BoseEdge<Sym> b;
         b.map = base.edges[i].map;
         split_map[s.name].push_back({names[i], b});
      }
      after_split.erase(after_split.begin() + fused_position);
      after_split.insert(after_split.begin() + fused_position, s.parts.begin(), s.parts.end());
      split_groups.push_back(s);
   }
   int rank = int(after_split.size());
   std::set<Name> reversed;
   if (is_fermi)
      for (auto& n : after_split)
         if (mc::flip("reverse")) reversed.insert(n);
   auto order = choose_order(after_split, "order");
   // fuse a run of neighbours of the new order
   int merge_begin = 0, merge_end = 0;
   if (rank > 0) {
      int m = mc::choose(1 + (rank >= 2 ? (rank - 1) : 0) + (rank >= 3 ? 1 : 0), "fuse");
      if (m > 0) {
         merge_begin = m - 1;
         merge_end = m + 1;
         if (m == rank) {
            merge_begin = 0;
            merge_end = rank;
         }
      }
   }
   bool merge = merge_end > merge_begin;
   bool apply = false;
   bool except[4] = {false, false, false, false};
   if (is_fermi) {
      apply = mc::flip("apply parity");
      except[0] = split && mc::flip("exception split");
      except[1] = !reversed.empty() && mc::flip("exception reverse");
      except[2] = merge && mc::flip("exception align");
      except[3] = merge && mc::flip("exception fuse");
   }
   mc::commit();
   auto t = to_tensor(start);
   // cut
   std::map<Name, std::map<Sym, Size>> cut_map;
   auto model = renamed;
   if (cut_mode) {
      int where = 0;
      if (split && where == fused_position) where = int(start.names.size()) - 1;
      if (split && where == fused_position) mc::skip(); // an edge that is split keeps its sectors
      auto m = start.edges[where].map;
      if (map_empty(m)) mc::skip();
      auto& c = cut_map[start.names[where]];
      if (cut_mode == 1) c[m.begin()->first] = 0;
      else
         for (auto& [s, d] : m) c[s] = cut_mode == 2 ? 1 : d + 2;
      if (cut_mode == 3) c.insert({charge(7, 1), 1}); // asking for more than there is asks for all of it
      model = ref_cut(model, where, c);
   }
   std::set<Name> ex[4];
   if (split) split_groups[0].sign_split = apply != except[0];
   if (except[0]) ex[0].insert(split_groups[0].name);
   std::set<Name> signed_reverse, signed_align;
   bool every_other = false;
   for (auto& n : after_split) {
      every_other = !every_other;
      bool x = except[1] && every_other;
      if (x) ex[1].insert(n);
      if (apply != x) signed_reverse.insert(n);
   }
   every_other = true;
   for (auto& n : order) {
      every_other = !every_other;
      bool x = except[2] && every_other;
      if (x) ex[2].insert(n);
      if (apply != x) signed_align.insert(n);
   }
   std::map<Name, std::vector<Name>> merge_map;
   std::vector<MergeGroup> merge_groups;
   Names result_names = order;
   if (merge) {
      MergeGroup g;
      g.name = Name("M");
      g.parts = Names(order.begin() + merge_begin, order.begin() + merge_end);
      g.sign_merge = apply != except[3];
      if (except[3]) ex[3].insert(g.name);
      merge_map[g.name] = g.parts;
      merge_groups.push_back(g);
      result_names.erase(result_names.begin() + merge_begin, result_names.begin() + merge_end);
      result_names.insert(result_names.begin() + merge_begin, g.name);
   }
   if (mc::replaying()) {
      std::string text = "operand " + show(start.names, start.edges) + (rename ? " rename" : "") + (split ? " split" : "") + " reverse" + show(Names(reversed.begin(), reversed.end())) + " order" + show(order);
      if (merge) text += " fuse" + show(merge_groups[0].parts);
      text += " cut" + std::to_string(cut_mode) + " parity" + std::to_string(apply) + std::to_string(except[0]) + std::to_string(except[1]) + std::to_string(except[2]) + std::to_string(except[3]);
      mc::note(text);
   }
   auto q = t.edge_operator(rename_map, split_map, reversed, merge_map, result_names, apply, std::array<std::set<Name>, 4>{{ex[0], ex[1], ex[2], ex[3]}}, cut_map);
   mc::step();
   // the model, step by step
   model = split ? ref_split(model, split_groups) : model;
   model = ref_reverse(model, reversed, signed_reverse);
   model = ref_transpose(model, order);
   if (merge) model = ref_merge_adjacent(model, merge_groups, signed_align);
   auto full = Ref::zeros(model.names, model.edges);
   for (auto& [k, v] : full.data) v = model.get(k);
   expect(q, full, "edge operator");
   expect(t, start, "operand after the edge operator");
   mc::state(hash_tensor(q));
   mc::outcome(hash_tensor(q));
}
// Several of everything at once: two edges that can be split, two renamed, any reordering, any way to cut the new order
// into runs that are fused, exceptions that concern one of two.
void many_case() {
   auto names = first_names(5);
   std::vector<Edge> edges;
   for (int i = 0; i < 5; i++) {
      auto e = is_no ? mk({{Sym(), Size(i % 3 == 2 ? 3 : 2)}}) : shapes(0)[i & 1];
      set_arrow(e, i == 1 || i == 2);
      edges.push_back(e);
   }
   int split = mc::choose(4, "split"); // which of the two fused edges
   int layout = mc::choose(2, "layout"); // AB C DE, A BC DE
   Names parts[2] = {layout ? Names{names[1], names[2]} : Names{names[0], names[1]}, Names{names[3], names[4]}};
   auto base = make_ref(names, edges, 5);
   std::vector<MergeGroup> fuse(2);
   for (int i = 0; i < 2; i++) {
      fuse[i].name = Name(i ? "X" : "Y");
      fuse[i].parts = parts[i];
   }
   auto start = ref_merge_adjacent(base, fuse, {});
   // two edges swap their names
   std::map<Name, Name> rename_map{{Name("X"), Name("Y")}, {Name("Y"), Name("X")}};
   auto renamed = start;
   for (auto& n : renamed.names)
      if (rename_map.count(n)) n = rename_map.at(n);
   std::vector<SplitGroup> split_groups;
   std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>> split_map;
   Names after_split;
   for (auto& n : renamed.names) {
      int which = n == Name("X") ? 0 : n == Name("Y") ? 1 : -1;
      if (which < 0 || !(split >> which & 1)) {
         after_split.push_back(n);
         continue;
      }
      SplitGroup s;
      s.name = n;
      for (auto& p : parts[which]) {
         auto& e = base.edges[base.find(p)];
         s.parts.push_back(p);
         s.edges.push_back(e);
         TAT::BoseEdge<Sym> b;
         b.map = e.map;
         split_map[n].push_back({p, b});
         after_split.push_back(p);
      }
      split_groups.push_back(s);
   }
   int rank = int(after_split.size());
   auto order = choose_order(after_split, "order");
   std::vector<Names> runs;
   for (int i = 0; i < rank; i++) {
      if (i == 0 || mc::flip("new run")) runs.push_back({});
      runs.back().push_back(order[i]);
   }
   int reverse = is_fermi ? mc::choose(3, "reverse") : 0;
   int parity = is_fermi ? mc::choose(4, "parity") : 0; // off, on, off with exceptions, on with exceptions
   mc::commit();
   bool apply = parity & 1;
   std::set<Name> ex[4], reversed, signed_reverse, signed_align;
   for (size_t i = 0; i < split_groups.size(); i++) {
      bool x = parity >= 2 && i == 0;
      if (x) ex[0].insert(split_groups[i].name);
      split_groups[i].sign_split = apply != x;
   }
   for (int i = 0; i < rank; i++) {
      auto& n = after_split[i];
      if (reverse && (i & 1) == reverse - 1) reversed.insert(n);
      bool x = parity >= 2 && i % 3 != 1;
      if (x) ex[1].insert(n);
      if (apply != x) signed_reverse.insert(n);
      bool y = parity >= 2 && i >= 2;
      if (y) ex[2].insert(n);
      if (apply != y) signed_align.insert(n);
   }
   std::map<Name, std::vector<Name>> merge_map;
   std::vector<MergeGroup> merge_groups;
   Names result_names;
   for (size_t i = 0; i < runs.size(); i++) {
      if (runs[i].size() == 1) {
         result_names.push_back(runs[i][0]);
         continue;
      }
      MergeGroup g;
      g.name = Name(("M" + std::to_string(9 - i)).c_str());
      g.parts = runs[i];
      bool x = parity >= 2 && merge_groups.empty();
      if (x) ex[3].insert(g.name);
      g.sign_merge = apply != x;
      merge_map[g.name] = g.parts;
      merge_groups.push_back(g);
      result_names.push_back(g.name);
   }
   if (mc::replaying()) {
      std::string text = "operand " + show(start.names, start.edges) + " split" + std::to_string(split) + " reverse" + show(Names(reversed.begin(), reversed.end())) + " order" + show(order);
      for (auto& g : merge_groups) text += " fuse" + show(g.parts);
      mc::note(text + " parity" + std::to_string(parity));
   }
   auto t = to_tensor(start);
   auto q = t.edge_operator(rename_map, split_map, reversed, merge_map, result_names, apply, std::array<std::set<Name>, 4>{{ex[0], ex[1], ex[2], ex[3]}}, {});
   mc::step();
   auto model = ref_split(renamed, split_groups);
   model = ref_reverse(model, reversed, signed_reverse);
   model = ref_transpose(model, order);
   model = ref_merge_adjacent(model, merge_groups, signed_align);
   auto full = Ref::zeros(model.names, model.edges);
   for (auto& [k, v] : full.data) v = model.get(k);
   expect(q, full, "edge operator");
   expect(t, start, "operand after the edge operator");
   mc::state(hash_tensor(q));
   mc::outcome(hash_tensor(q));
}
void body() {
   if (mc::flip("several of everything")) many_case();
   else single_case();
}
int main(int c, char** v) { return mc::main(c, v, body); }
