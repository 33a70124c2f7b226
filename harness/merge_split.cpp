// Fusing edges and splitting them again: every partition of the edges of small tensors into groups, every order of
// the parts inside a group, every parity option; the fused layout is compared with the table model, and splitting the
// fused edges must give back the original.
#include "ref.hpp"

// Assign every edge to no group or to one of two groups (three for five edges); then choose an order inside each group.
void body() {
   bool wide = mc::flip("wide");
   int max_rank = mc::thorough() && !is_fermi ? 5 : 4;
   int rank = wide ? 4 + mc::choose(2, "rank") : mc::choose(max_rank + 1, "rank");
   int first = wide ? mc::choose(rank == 4 ? 4 : 1, "first shape") : 0, arrows = wide && is_fermi ? mc::choose(rank == 4 ? 4 : 2, "arrows") : 0;
   int most = wide && rank == 5 ? 3 : 2;
   auto names = first_names(rank);
   std::vector<Edge> edges;
   bool big = rank >= (mc::thorough() ? 5 : 4) || (!is_no && rank >= (mc::thorough() ? 4 : 3));
   for (int i = 0; i < rank; i++) {
      if (wide) {
         edges.push_back(rank == 4 ? wide_edge(i + first, wide_arrow(arrows, i)) : shapes(0)[i % 2]);
         set_arrow(edges.back(), wide_arrow(arrows, i));
      } else if (big) {
         auto e = shapes(0)[mc::choose(is_no || rank >= 4 ? 2 : 3, "edge")];
         if (is_fermi) set_arrow(e, mc::flip("arrow"));
         edges.push_back(e);
      } else {
         edges.push_back(choose_edge(2, "edge"));
      }
   }
   Names group_parts[3];
   int used = 0;
   for (int i = 0; i < rank; i++) {
      int g = mc::choose(std::min(used + 2, most + 1), "group"); // 0: left alone; groups are numbered by first use
      if (g == 0) continue;
      used = std::max(used, g);
      group_parts[g - 1].push_back(names[i]);
   }
   bool empty_group = used < 2 && rank <= 2 && mc::flip("a group without parts");
   for (int g = 0; g < used; g++)
      if (group_parts[g].size() > 1) group_parts[g] = choose_order(group_parts[g], "order in group");
   bool apply = false, swap_merge = false, swap_reverse = false;
   if (is_fermi && wide) {
      int how = mc::choose(rank == 4 ? 4 : 3, "parity options");
      apply = how != 0;
      swap_merge = how >= 2;
      swap_reverse = how == 3;
   } else if (is_fermi) {
      apply = mc::flip("apply parity");
      if (!big) {
         swap_merge = mc::flip("exception for the fusion sign");
         swap_reverse = mc::flip("exception for the reversal sign");
      } else {
         swap_merge = swap_reverse = mc::flip("exceptions");
      }
   }
   mc::commit();
   auto r = make_ref(names, edges, 3);
   auto t = to_tensor(r);
   // the names of the groups sort before and after the edges' names
   std::vector<Name> group_name = {Name("Group1"), Name("0Group2"), Name("Bgroup3")};
   std::map<Name, std::vector<Name>> plan;
   std::vector<MergeGroup> groups;
   std::set<Name> except_merge, except_reverse;
   for (int g = 0; g < used; g++) {
      plan[group_name[g]] = group_parts[g];
      MergeGroup m;
      m.name = group_name[g];
      m.parts = group_parts[g];
      bool flip_this = swap_merge && g == 0;
      if (flip_this) except_merge.insert(m.name);
      m.sign_merge = apply != flip_this;
      groups.push_back(m);
   }
   if (empty_group) plan[Name("Trivial")] = {};
   if (swap_reverse)
      for (int i = 0; i < rank; i += 2) except_reverse.insert(names[i]);
   std::set<Name> signed_reverse;
   for (auto& n : names)
      if (apply != bool(except_reverse.count(n))) signed_reverse.insert(n);
   if (mc::replaying()) {
      std::string text = "merge " + show(names, edges) + " into";
      for (auto& [n, p] : plan) text += " " + show(n) + show(p);
      mc::note(text + (is_fermi ? std::string(" parity=") + (apply ? "1" : "0") + (swap_merge ? "m" : "") + (swap_reverse ? "r" : "") : ""));
   }
   auto q = t.merge_edge(plan, apply, std::set<Name>(except_merge), std::set<Name>(except_reverse));
   mc::step();
   // expected: bring the edges next to one another (in the order the library put the results), then fuse
   Names expanded;
   std::set<Name> seen;
   for (auto& n : q.names) {
      mc::check(seen.insert(n).second, "merge: an edge appears twice");
      auto f = plan.find(n);
      if (f == plan.end()) expanded.push_back(n);
      else expanded.insert(expanded.end(), f->second.begin(), f->second.end());
   }
   mc::check(std::multiset<Name>(expanded.begin(), expanded.end()) == std::multiset<Name>(names.begin(), names.end()), "merge: edges lost or added");
   for (auto& [n, p] : plan) mc::check(seen.count(n) == 1, "merge: a requested edge is missing");
   auto moved = ref_transpose(r, expanded);
   auto fused = ref_merge_adjacent(moved, groups, signed_reverse);
   if (empty_group) {
      Ref with;
      for (auto& n : q.names) {
         with.names.push_back(n);
         with.edges.push_back(n == Name("Trivial") ? mk({{Sym(), 1}}) : fused.edges[fused.find(n)]);
      }
      with = Ref::zeros(with.names, with.edges);
      for (auto& [k, v] : with.data) {
         Key small;
         for (size_t i = 0; i < k.size(); i++)
            if (!(with.names[i] == Name("Trivial"))) small.push_back(k[i]);
         v = fused.get(small);
      }
      fused = with;
   }
   expect(q, fused, "merge");
   expect(t, r, "operand after merge");
   // split again
   std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>> split_plan;
   std::vector<SplitGroup> split_groups;
   for (int g = 0; g < used; g++) {
      SplitGroup s;
      s.name = group_name[g];
      s.parts = group_parts[g];
      s.sign_split = groups[g].sign_merge;
      auto& p = split_plan[s.name];
      for (auto& n : group_parts[g]) {
         auto e = r.edges[r.find(n)];
         s.edges.push_back(e);
         TAT::BoseEdge<Sym> b;
         b.map = e.map;
         p.push_back({n, b});
      }
      split_groups.push_back(s);
   }
   if (empty_group) {
      split_plan[Name("Trivial")] = {};
      SplitGroup s;
      s.name = Name("Trivial");
      split_groups.push_back(s);
   }
   auto back = q.split_edge(split_plan, apply, std::set<Name>(except_merge));
   mc::step();
   auto split = ref_split(fused, split_groups);
   expect(back, split, "split");
   // and independently of the model of splitting: the numbers of the original, up to the arrows that were aligned
   Ref original = moved;
   for (int g = 0; g < used; g++) {
      bool fixed = false, arrow = false;
      for (auto& n : group_parts[g]) {
         int i = original.find(n);
         if (!has_direction(original.edges[i])) continue;
         if (!fixed) {
            fixed = true;
            arrow = get_arrow(original.edges[i]);
         } else if (get_arrow(original.edges[i]) != arrow && signed_reverse.count(n)) {
            for (auto& [k, v] : original.data)
               if (odd(k[i].first)) v = -v;
         }
      }
   }
   expect(back, original, "merge then split", 0, false);
   expect(q, fused, "operand after split");
   mc::state(hash_tensor(q));
   mc::outcome(hash_tensor(q));
   mc::outcome(hash_tensor(back));
}
int main(int c, char** v) { return mc::main(c, v, body); }
