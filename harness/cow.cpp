// Value semantics: tensors are values. Every history of copying, renaming, converting and writing on three tensors that
// may share storage; after every step all three must hold what a world of plain independent values would hold.
#include "ref.hpp"

struct World {
   std::vector<Tensor> t;
   std::vector<Ref> r;
};
Name other_name(const Name& n) {
   return n == Name("A") ? Name("P") : Name("A");
}
const char* ways[] = {"=", "copy()", "edge_rename", "to<same>", "conjugate", "transpose", "map", "constructor", "multiple by nothing", "+0", "reverse_edge", "move", "copy() while an element is referred to"};
constexpr int ways_count = 13;
const char* writes[] = {"transform", "zero", "at", "block", "*= number", "+= tensor", "set", "load", "/= number", "test", "-= tensor"};
constexpr int writes_count = 11;

void derive(World& w, int dst, int src, int way) {
   auto& s = w.t[src];
   auto r = w.r[src];
   switch (way) {
      case 0: w.t[dst] = s; break;
      case 1: w.t[dst] = s.copy(); break;
      case 2: {
         if (r.names.empty()) { w.t[dst] = s.edge_rename(std::map<Name, Name>()); break; }
         auto n = other_name(r.names[0]);
         w.t[dst] = s.edge_rename(std::map<Name, Name>{{r.names[0], n}});
         r.names[0] = n;
         break;
      }
      case 3: w.t[dst] = s.template to<Scalar>(); break;
      case 4: w.t[dst] = s.conjugate(); r = ref_conjugate(r); break;
      case 5: w.t[dst] = s.transpose(r.names); break;
      case 6: w.t[dst] = s.map([](Scalar x) { return x; }); break;
      case 7: { Tensor x(s); w.t[dst] = x; break; }
      case 8: w.t[dst] = s.multiple({}, Name("no such edge"), 'u'); break;
      case 9: w.t[dst] = s + Scalar(0); break;
      case 10: w.t[dst] = s.reverse_edge(std::set<Name>()); break;
      case 11: { Tensor x = s; w.t[dst] = std::move(x); break; }
      case 12: {
         // a copy is independent of references into the storage of the original, which only copy() promises
         auto k = std::prev(r.data.end())->first;
         auto& element = w.t[src].at(position_of(r.names, k));
         w.t[dst] = w.t[src].copy();
         element = make_scalar<Scalar>(91, 3);
         w.r[src].data[k] = make_scalar<Scalar>(91, 3);
         break;
      }
   }
   w.r[dst] = r;
}
bool same_shape(const Ref& a, const Ref& b) {
   if (a.names != b.names || a.edges.size() != b.edges.size()) return false;
   for (size_t i = 0; i < a.edges.size(); i++)
      if (!(a.edges[i].map == b.edges[i].map) || get_arrow(a.edges[i]) != get_arrow(b.edges[i])) return false;
   return true;
}
// false: not applicable in this state
bool write(World& w, int at, int how, int step) {
   auto& t = w.t[at];
   auto& r = w.r[at];
   int other = (at + 1) % int(w.t.size());
   Scalar salt = make_scalar<Scalar>(step + 2, step);
   switch (how) {
      case 0: {
         t.transform([&](Scalar x) { return x + salt; });
         for (auto& [k, v] : r.data) v += salt;
         break;
      }
      case 1: {
         t.zero();
         for (auto& [k, v] : r.data) v = 0;
         break;
      }
      case 2: {
         auto k = std::prev(r.data.end())->first;
         t.at(position_of(r.names, k)) = salt;
         r.data[k] = salt;
         break;
      }
      case 3: {
         auto k = r.data.begin()->first;
         t.block(sectors_of(r.names, k))[block_offset(r.edges, k)] = salt;
         r.data[k] = salt;
         break;
      }
      case 4: {
         t *= Scalar(2);
         for (auto& [k, v] : r.data) v *= Scalar(2);
         break;
      }
      case 5:
      case 10: {
         if (!same_shape(r, w.r[other])) return false;
         if (how == 5) t += w.t[other];
         else t -= w.t[other];
         for (auto& [k, v] : r.data) v += how == 5 ? w.r[other].data.at(k) : -w.r[other].data.at(k);
         break;
      }
      case 6: {
         t.set([&] { return salt; });
         for (auto& [k, v] : r.data) v = salt;
         break;
      }
      case 7: {
         t.load(w.t[other].dump());
         r = w.r[other];
         break;
      }
      case 8: {
         t /= Scalar(2);
         for (auto& [k, v] : r.data) v /= Scalar(2);
         break;
      }
      case 9: {
         t.test(salt, Scalar(1));
         Scalar x = salt;
         std::map<std::vector<Sym>, std::map<Size, Scalar*>> blocks;
         for (auto& [k, v] : r.data) blocks[block_key(k)][block_offset(r.edges, k)] = &v;
         for (auto& [b, m] : blocks)
            for (auto& [o, p] : m) {
               *p = x;
               x += Scalar(1);
            }
         break;
      }
   }
   return true;
}

void body() {
   int shape = mc::choose(3, "tensors");
   int depth = mc::thorough() ? 4 : 3;
   World w;
   std::vector<Edge> e;
   if (shape == 1) e = {mk({{charge(0), 2}})};
   if (shape == 2) {
      auto s = shapes(0)[is_no ? 0 : 2];
      e = {s, dual(s)};
   }
   if (mc::thorough() && shape == 1) mc::skip();
   auto names = first_names(int(e.size()));
   w.r = {make_ref(names, e, 1), make_ref(names, e, 2), make_ref(names, e, 3)};
   for (auto& r : w.r) w.t.push_back(to_tensor(r));
   std::vector<int> plan;
   // choose the whole history first; the first step always makes 1 out of 0 (or not), by symmetry of the three tensors
   static const int pairs[6][2] = {{1, 0}, {2, 0}, {0, 1}, {2, 1}, {0, 2}, {1, 2}};
   for (int i = 0; i < depth; i++) {
      int kinds = 6 * ways_count + 3 * writes_count;
      plan.push_back(i == 0 ? mc::choose(ways_count, "derive 1 from 0") : mc::choose(kinds, "operation"));
      if (i > 0 && i + 1 == depth && plan.back() < 6 * ways_count) mc::skip(); // a history that ends without a write adds nothing
   }
   mc::commit();
   for (int i = 0; i < depth; i++) {
      int p = plan[i];
      if (p < 6 * ways_count) {
         auto [dst, src] = pairs[p / ways_count];
         if (mc::replaying()) mc::note("tensor " + std::to_string(dst) + " from " + std::to_string(src) + " by " + ways[p % ways_count]);
         derive(w, dst, src, p % ways_count);
      } else {
         p -= 6 * ways_count;
         if (mc::replaying()) mc::note("write to " + std::to_string(p / writes_count) + " by " + writes[p % writes_count]);
         if (!write(w, p / writes_count, p % writes_count, i)) mc::skip();
      }
      mc::step();
   }
   uint64_t h = 0;
   for (int k = 0; k < 3; k++) {
      expect(w.t[k], w.r[k], k == 0 ? "tensor 0" : k == 1 ? "tensor 1" : "tensor 2");
      h = mc::mix(h, hash_tensor(w.t[k]));
      for (int j = 0; j < k; j++) h = mc::mix(h, &*w.t[k].core == &*w.t[j].core);
   }
   mc::state(h);
   mc::outcome(h);
}
int main(int c, char** v) { return mc::main(c, v, body); }
