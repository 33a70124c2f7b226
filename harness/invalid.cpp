// Requests that cannot be carried out are refused with an exception; they change no operand and later requests work as before.
#include "ref.hpp"

template<typename F>
bool refused(F&& f) {
   try {
      f();
   } catch (const mc::Failure&) {
      throw;
   } catch (const mc::Skip&) {
      throw;
   } catch (const std::exception&) {
      return true;
   }
   return false;
}
static Edge larger(Edge e, int which) {
   auto i = e.map.begin();
   std::advance(i, which % e.map.size());
   i->second++;
   return e;
}
// sectors that occur in no block are dropped from a tensor's edges, so a fault may vanish with them
static bool conflict(const Edge& a, const Edge& b, bool opposite) {
   for (auto& [s, d] : a.map) {
      auto f = b.map.find(opposite ? -s : s);
      if (f != b.map.end() && f->second != d) return true;
   }
   return false;
}
template<typename P>
void put_point(P& p, const Sym& s) {
   if constexpr (!std::is_integral_v<P>) p = P{s, Size(0)};
}
using Pairs = std::set<std::pair<Name, Name>>;
void body() {
   enum { CONSTRUCT, TRANSPOSE, MERGE, CONTRACT_DIMENSION, CONTRACT_ARROW, CONTRACT_TWICE, FUSE, TRACE, ARITHMETIC, INPLACE, ELEMENT, BLOCK, MULTIPLE, DIRECTION, NUMBER, ONE, KINDS };
   int kind = mc::choose(KINDS, "kind");
   int rank = mc::choose(mc::thorough() ? 5 : 4, "rank");
   auto names = first_names(rank);
   std::vector<Edge> edges;
   for (int i = 0; i < rank; i++) edges.push_back(choose_edge(rank <= 2 ? 2 : 0, "edge", rank <= 2));
   auto r = make_ref(names, edges, 7);
   auto t = to_tensor(r);
   const Name X("X"), Y("Y");
   Tensor other; // second operand, if any
   Ref other_ref;
   bool has_other = false;
   auto with = [&](const Names& n, const std::vector<Edge>& e) {
      other_ref = make_ref(n, e, 19);
      other = to_tensor(other_ref);
      has_other = true;
   };
   auto before = TAT::pmr::get_default_resource();
   std::string what;
   bool ok = true;
   auto must = [&](bool refusal, const char* message) {
      what = message;
      ok = ok && refusal;
   };
   auto need = [&](bool c) {
      if (!c) mc::skip();
   };
   bool shared = mc::flip("storage is shared");
   Tensor twin;
   if (shared) twin = t;
   switch (kind) {
      case CONSTRUCT: {
         int how = mc::choose(3, "fault");
         Names n = names;
         if (how == 0) n.push_back(X);
         else if (how == 1) {
            need(rank > 0);
            n.pop_back();
         } else {
            need(rank > 1);
            int i = mc::choose(rank, "name"), j = mc::choose(rank, "again");
            need(i != j);
            n[i] = n[j];
         }
         mc::commit();
         must(refused([&] { Tensor x(n, edges); }), "a tensor with the wrong number of names or a repeated name is not refused");
         break;
      }
      case TRANSPOSE: {
         int how = mc::choose(4, "fault");
         Names n = choose_order(names, "order");
         if (how == 0) n.insert(n.begin() + mc::choose(rank + 1, "place"), X);
         else {
            need(rank > 0);
            int i = mc::choose(rank, "place");
            if (how == 1) n.erase(n.begin() + i);
            else if (how == 2) n[i] = X;
            else {
               need(rank > 1);
               int j = mc::choose(rank, "again");
               need(i != j);
               n[i] = n[j];
            }
         }
         mc::commit();
         must(refused([&] { (void)t.transpose(n); }), "an order that does not list every edge once is not refused");
         break;
      }
      case MERGE: {
         need(rank > 1);
         int i = mc::choose(rank, "first"), j = mc::choose(rank, "second"), how = mc::choose(2, "fault");
         need(i != j);
         mc::commit();
         std::map<Name, std::vector<Name>> m;
         Names target;
         if (how == 0) { // twice in one group, instead of another edge
            m[X] = {names[i], names[i]};
            for (int k = 0; k < rank; k++)
               if (k != i && k != j) target.push_back(names[k]);
            target.push_back(X);
         } else { // in a group and alone
            m[X] = {names[i]};
            for (int k = 0; k < rank; k++)
               if (k != j) target.push_back(names[k]);
            target.push_back(X);
         }
         must(refused([&] { (void)t.edge_operator(std::map<Name, Name>(), std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>>(), std::set<Name>(), m, target); }),
              "a merge that uses an edge twice is not refused");
         break;
      }
      case CONTRACT_DIMENSION: {
         need(rank > 0);
         int i = mc::choose(rank, "edge");
         int s = mc::choose(int(edges[i].map.size()), "sector");
         bool free = mc::flip("second tensor has another edge");
         bool swap = mc::flip("operands exchanged");
         bool both = rank > 1 && mc::flip("another edge is contracted too");
         int j = both ? (i + 1) % rank : 0;
         mc::commit();
         Names n = {X};
         std::vector<Edge> e = {larger(dual(edges[i]), s)};
         Pairs p = {{names[i], X}};
         if (both) {
            n.push_back(Y);
            e.push_back(dual(edges[j]));
            p.insert({names[j], Y});
         }
         if (free) {
            n.push_back(Name("Z"));
            e.push_back(shapes(0)[0]);
         }
         with(n, e);
         need(conflict(r.edges[i], other_ref.edges[0], true));
         Pairs q;
         for (auto& [a, b] : p) q.insert({b, a});
         must(refused([&] {
                 if (swap) (void)other.contract(t, q);
                 else (void)t.contract(other, p);
              }),
              "contracting edges of different dimension is not refused");
         break;
      }
      case CONTRACT_ARROW: {
         need(is_fermi && rank > 0);
         int i = mc::choose(rank, "edge");
         bool swap = mc::flip("operands exchanged");
         mc::commit();
         auto e = dual(edges[i]);
         set_arrow(e, get_arrow(edges[i]));
         with({X}, {e});
         must(refused([&] {
                 if (swap) (void)other.contract(t, Pairs{{X, names[i]}});
                 else (void)t.contract(other, Pairs{{names[i], X}});
              }),
              "contracting edges of equal arrow is not refused");
         break;
      }
      case CONTRACT_TWICE: {
         need(rank > 0);
         int i = mc::choose(rank, "edge");
         bool second = mc::flip("which operand");
         mc::commit();
         with({X, Y}, {dual(edges[i]), dual(edges[i])});
         must(refused([&] {
                 if (second) (void)other.contract(t, Pairs{{X, names[i]}, {Y, names[i]}});
                 else (void)t.contract(other, Pairs{{names[i], X}, {names[i], Y}});
              }),
              "contracting one edge with two is not refused");
         break;
      }
      case FUSE: {
         need(is_no && rank > 0);
         int i = mc::choose(rank, "edge");
         bool contracted = rank > 1 && mc::flip("another edge is contracted");
         mc::commit();
         Names n = {names[i]};
         std::vector<Edge> e = {larger(edges[i], 0)};
         Pairs p;
         if (contracted) {
            n.push_back(X);
            e.push_back(edges[(i + 1) % rank]);
            p.insert({names[(i + 1) % rank], X});
         }
         with(n, e);
         must(refused([&] { (void)t.contract(other, p); }), "a common edge of two dimensions is not refused");
         break;
      }
      case TRACE: {
         need(rank > 0 && rank < 4);
         int i = mc::choose(rank, "edge");
         int how = mc::choose(is_fermi ? 2 : 1, "fault");
         int s = mc::choose(int(edges[i].map.size()), "sector");
         int place = mc::choose(rank + 1, "place");
         bool swap = mc::flip("pair written the other way");
         mc::commit();
         auto e = dual(edges[i]);
         if (how == 0) e = larger(e, s);
         else {
            need(s == 0);
            set_arrow(e, get_arrow(edges[i]));
         }
         auto n = names;
         auto es = edges;
         n.insert(n.begin() + place, X);
         es.insert(es.begin() + place, e);
         with(n, es);
         need(how == 1 || conflict(other_ref.edges[other_ref.find(names[i])], other_ref.edges[place], true));
         must(refused([&] { (void)other.trace(swap ? Pairs{{names[i], X}} : Pairs{{X, names[i]}}); }), "tracing edges that do not fit is not refused");
         break;
      }
      case ARITHMETIC:
      case INPLACE: {
         int how = mc::choose(kind == INPLACE && !is_no ? 4 : 3, "fault");
         int op = mc::choose(4, "operator");
         auto n = names;
         auto es = edges;
         if (how == 0) {
            bool less = mc::flip("fewer edges");
            need(!less || rank > 0);
            if (less) {
               n.pop_back();
               es.pop_back();
            } else {
               n.push_back(X);
               es.push_back(shapes(0)[0]);
            }
         } else {
            need(rank > 0);
            int i = mc::choose(rank, "edge");
            if (how == 1) n[i] = X;
            else if (how == 2) {
               int s = mc::choose(int(es[i].map.size()), "sector");
               es[i] = larger(es[i], s);
            } else es[i].map[charge(5, 1)] = 1;
         }
         n = choose_order(n, "order");
         {
            std::vector<Edge> permuted;
            // keep edges with their names
            auto base = names;
            if (n.size() > names.size()) base.push_back(X);
            if (how == 1)
               for (auto& x : base)
                  if (std::find(n.begin(), n.end(), x) == n.end()) x = X;
            for (auto& x : n) permuted.push_back(es[std::find(base.begin(), base.end(), x) - base.begin()]);
            es = permuted;
         }
         mc::commit();
         with(n, es);
         if (how >= 2) {
            bool c = false;
            for (int i = 0; i < rank; i++) {
               auto& e = other_ref.edges[other_ref.find(names[i])];
               c = c || conflict(r.edges[i], e, false) || (kind == INPLACE && !map_equal(e.map, r.edges[i].map));
            }
            need(c);
         }
         for (int swapped = 0; swapped < (how == 3 ? 1 : 2); swapped++) {
            auto& left = swapped ? other : t;
            auto& right = swapped ? t : other;
            must(refused([&] {
                    if (kind == ARITHMETIC) {
                       if (op == 0) (void)(left + right);
                       else if (op == 1) (void)(left - right);
                       else if (op == 2) (void)(left * right);
                       else (void)(left / right);
                    } else {
                       if (op == 0) left += right;
                       else if (op == 1) left -= right;
                       else if (op == 2) left *= right;
                       else left /= right;
                    }
                 }),
                 "arithmetic between tensors whose edges do not fit is not refused");
         }
         break;
      }
      case ELEMENT: {
         need(rank > 0);
         int e = mc::choose(int(r.data.size()) + 1, "element");
         need(e < int(r.data.size()));
         auto it = r.data.begin();
         std::advance(it, e);
         auto p = position_of(names, it->first);
         int i = mc::choose(rank, "edge");
         bool write = mc::flip("for writing");
         if constexpr (is_no) p.erase(names[i]);
         else {
            if (mc::flip("fault")) p.erase(names[i]);
            else put_point(p[names[i]], charge(5, 1));
            if (p.size() == size_t(rank) && map_has(edges[i].map, charge(5, 1))) mc::skip();
         }
         mc::commit();
         must(refused([&] {
                 if (write) t.at(p) = 99;
                 else (void)t.const_at(p);
              }),
              "an element without a coordinate, or with one that does not exist, is not refused");
         break;
      }
      case BLOCK: {
         need(rank > 0 && !is_no);
         std::map<Name, Sym> p;
         Sym total{};
         for (int i = 0; i < rank; i++) {
            auto it = edges[i].map.begin();
            std::advance(it, mc::choose(int(edges[i].map.size()), "sector"));
            p[names[i]] = it->first;
            total += it->first;
         }
         int i = mc::choose(rank, "edge");
         int how = mc::choose(3, "fault");
         if (how == 0) p.erase(names[i]);
         else if (how == 1) {
            p[names[i]] = charge(5, 1);
            need(!map_has(edges[i].map, charge(5, 1)));
         } else need(total != Sym() && i == 0);
         bool write = mc::flip("for writing");
         mc::commit();
         must(refused([&] {
                 if (write) (void)t.block(p);
                 else (void)t.const_block(p);
              }),
              "a block that does not exist is not refused");
         break;
      }
      case MULTIPLE: {
         need(rank > 0 && !r.data.empty());
         int i = mc::choose(rank, "edge");
         int how = mc::choose(is_no ? 3 : 4, "fault");
         bool v = mc::flip("direction");
         // only sectors that occur in a block matter
         std::set<Sym> used;
         for (auto& [k, x] : r.data) used.insert(k[i].first);
         auto it = used.begin();
         std::advance(it, mc::choose(int(used.size()), "sector"));
         mc::commit();
#ifndef TAT_USE_SINGULAR_MATRIX
         typename Tensor::SingularType s;
         for (auto& [q, d] : r.edges[i].map) {
            auto& l = s.value[v ? -q : q];
            l.clear();
            Size m = d;
            if (q == *it && how == 1) m++;
            if (q == *it && how == 2) m--;
            for (Size k = 0; k < m; k++) l.push_back(2);
         }
         if (how == 3) s.value.erase(v ? -*it : *it);
         must(refused([&] { (void)t.multiple(s, names[i], how == 0 ? 'x' : v ? 'v' : 'u'); }), "multiplying by values that do not fit is not refused");
#else
         mc::skip();
#endif
         break;
      }
      case DIRECTION: {
         need(rank > 1);
         mc::commit();
         must(refused([&] { (void)t.qr('x', std::set<Name>{names[0]}, X, Y); }), "an unknown direction of a QR decomposition is not refused");
         break;
      }
      case NUMBER: {
         // a tensor with more than one element is not a number
         mc::commit();
         need(r.data.size() > 1);
         must(refused([&] { (void)Scalar(t); }), "a tensor with several elements turns into a number");
         break;
      }
      case ONE: {
         // a tensor of one element needs a charge (and an arrow) for every edge, and charges that sum to zero
         need(!is_no && rank > 0);
         int how = mc::choose(is_fermi ? 3 : 2, "fault");
         std::vector<Sym> charges;
         std::vector<TAT::Arrow> arrows;
         Sym total{};
         for (int i = 0; i < rank; i++) {
            auto it = edges[i].map.begin();
            std::advance(it, mc::choose(int(edges[i].map.size()), "sector"));
            charges.push_back(it->first);
            total += it->first;
            arrows.push_back(get_arrow(edges[i]));
         }
         need(how == 0 ? total != Sym() : total == Sym());
         if (how == 1) charges.pop_back();
         if (how == 2) arrows.pop_back();
         mc::commit();
         must(refused([&] {
                 if constexpr (!is_no) (void)Tensor::one(3, names, charges, arrows);
              }),
              "a tensor of one element without a charge or an arrow for every edge, or with charges that do not sum to zero, is not refused");
         break;
      }
   }
   if (mc::replaying()) mc::note("tensor " + show(names, edges) + (has_other ? " other " + show(other_ref.names, other_ref.edges) : ""));
   mc::check(ok, [&] { return what; });
   expect(t, r, "operand of a refused request");
   if (shared) expect(twin, r, "tensor sharing storage with the operand of a refused request");
   if (has_other) expect(other, other_ref, "second operand of a refused request");
   mc::check(TAT::pmr::get_default_resource() == before, "the scratch memory of a refused request is still in use");
   auto reversed = names;
   std::reverse(reversed.begin(), reversed.end());
   expect(t.transpose(reversed), ref_transpose(r, reversed), "a request after a refused one");
   mc::step();
   mc::state(mc::mix(hash_tensor(t), kind));
   mc::outcome(kind);
}
int main(int argc, char** argv) { return mc::main(argc, argv, body); }
