// QR decomposition: for every small tensor and bipartition the factors multiply back and Q is an isometry.
#include "dec.hpp"

void body() {
   auto o = choose_operand();
   char direction = "rRqQ"[mc::choose(mc::thorough() ? 4 : 2, "direction") * (mc::thorough() ? 1 : 2)];
   auto order = choose_order(o.r.names, "order");
   mc::commit();
   o.r = ref_transpose(o.r, order);
   auto t = to_tensor(o.r);
   Name cq("Q_common"), cr("R_common");
   mc::note("qr of " + show(o.r.names, o.r.edges) + " direction " + direction + " set " + show(Names(o.left.begin(), o.left.end())));
   auto result = t.qr(direction, o.left, cq, cr);
   mc::step();
   expect(t, o.r, "operand after qr");
   bool set_is_r = direction == 'r' || direction == 'R';
   auto q = from_tensor(result.Q), r = from_tensor(result.R);
   std::multiset<Name> nq(q.names.begin(), q.names.end()), nr(r.names.begin(), r.names.end()), wq{cq}, wr{cr};
   for (auto& n : o.r.names) (bool(o.left.count(n)) == set_is_r ? wr : wq).insert(n);
   mc::check(nq == wq && nr == wr, "qr: the factors have other edges");
   auto& eq = q.edges[q.find(cq)];
   auto& er = r.edges[r.find(cr)];
   std::map<Sym, Size> dq, dr;
   for (auto& [s, d] : eq.map) dq[s] = d;
   for (auto& [s, d] : er.map) dr[-s] = d;
   mc::check(dq == dr, "qr: the new edges do not match");
   if (is_fermi && !dq.empty()) mc::check(get_arrow(eq) != get_arrow(er), "qr: arrows of the new edges");
   // never more columns than either side has
   for (auto* f : {&q, &r}) {
      std::map<Sym, Size> side;
      Name common = f == &q ? cq : cr;
      int c = f->find(common);
      std::set<std::pair<Sym, Key>> seen;
      for (auto& [k, x] : f->data) {
         Key rest;
         for (size_t i = 0; i < k.size(); i++)
            if (int(i) != c) rest.push_back(k[i]);
         if (seen.insert({k[c].first, rest}).second) side[k[c].first]++;
      }
      for (auto& [s, d] : f->edges[c].map) mc::check(d <= side[s], "qr: the new edge is larger than needed");
      for (size_t i = 0; i < f->names.size(); i++)
         if (int p = o.r.find(f->names[i]); p >= 0) {
            if (is_fermi) mc::check(get_arrow(f->edges[i]) == get_arrow(o.r.edges[p]), "qr: arrow of a free edge changed");
            mc::check(f->edges[i].map == o.r.edges[p].map, "qr: shape of a free edge changed");
         }
   }
   expect_isometry(q, cq, "qr Q");
   if (!dq.empty()) {
      auto product = ref_transpose(ref_contract(q, r, {{cq, cr}}), o.r.names);
      expect_close(product, o.r, tolerance * 10, "Q R");
      auto p = from_tensor(result.Q.contract(result.R, {{cq, cr}}).transpose(o.r.names));
      expect_close(p, o.r, tolerance * 10, "Q R by the library");
      mc::step();
   } else {
      mc::check(o.r.data.empty(), "qr lost everything");
   }
   mc::state(hash_tensor(t));
   mc::outcome(hash_tensor(result.Q));
   mc::outcome(hash_tensor(result.R));
}
int main(int c, char** v) { return mc::main(c, v, body); }
