// Cached contractions of a square network: after any history of setting and unsetting sites, reading, copying, moving, saving and
// restoring, every reading equals the complete sum over all bonds of the current tensors.
#include "lattice.hpp"
using System = square::SquareAuxiliariesSystem<T>;

struct Model {
   Network network;
   std::vector<std::vector<int>> version; // -1: unset
   bool complete() const {
      for (auto& r : version)
         for (auto v : r)
            if (v < 0) return false;
      return true;
   }
};
static int M, N, widths;
static int vertical(int i, int j) { return widths == 0 ? 2 : widths == 1 ? 1 + (i + 2 * j) % 3 : widths == 2 ? 1 : 1 + (i + j + (i * j) % 2) % 2; }
static int horizontal(int i, int j) { return widths == 0 ? 2 : widths == 1 ? 1 + (2 * i + j + 1) % 3 : widths == 2 ? 3 : 1 + (i + 1) % 2; }
static Tensor content(int i, int j, int version) {
   std::vector<Name> n;
   std::vector<Size> d;
   auto add = [&](const char* name, int dim) {
      // the order of the legs differs from site to site
      if ((i + j + version) % 2) {
         n.insert(n.begin(), name);
         d.insert(d.begin(), dim);
      } else {
         n.push_back(name);
         d.push_back(dim);
      }
   };
   if (i) add("U", vertical(i - 1, j));
   if (j) add("L", horizontal(i, j - 1));
   if (i < M - 1) add("D", vertical(i, j));
   if (j < N - 1) add("R", horizontal(i, j));
   return filled(n, d, 100 + i * 37 + j * 11 + version * 1001);
}
static void put(Model& m, int i, int j, int version) {
   m.version[i][j] = version;
   if (version >= 0) m.network.site[i][j] = content(i, j, version);
}
struct Query {
   int kind; // 0 nothing left out, 1 hole, 2 no replacement, 3 one replacement, 4 two
   Site a, b;
   char hint;
};
static std::vector<Query> queries() {
   std::vector<Query> r;
   r.push_back({0, {}, {}, ' '});
   r.push_back({2, {}, {}, ' '});
   for (int i = 0; i < M; i++)
      for (int j = 0; j < N; j++) {
         for (char h : {'h', 'v'})
            for (int k : {1, 3}) r.push_back({k, {i, j}, {}, h});
         if (j + 1 < N) r.push_back({4, {i, j}, {i, j + 1}, 'h'});
         if (i + 1 < M) r.push_back({4, {i, j}, {i + 1, j}, 'v'});
      }
   return r;
}
static std::string describe(const Query& q) {
   static const char* names[] = {"everything", "a hole", "no replacement", "one replacement", "two replacements"};
   auto at = [](Site s) { return "(" + std::to_string(std::get<0>(s)) + "," + std::to_string(std::get<1>(s)) + ")"; };
   return std::string(names[q.kind]) + (q.kind == 0 || q.kind == 2 ? "" : " at " + at(q.a)) + (q.kind == 4 ? at(q.b) : "") + " hint " + q.hint;
}
static void ask(System& s, Model& m, const Query& q) {
   if (!m.complete()) return;
   if (mc::replaying()) mc::note("read " + describe(q));
   double scale = 0.01;
   uint64_t h = mc::mix(M * 10 + N, widths);
   for (auto& r : m.version)
      for (auto v : r) h = mc::mix(h, v + 1);
   mc::state(h);
   if (q.kind == 0) {
      Tensor got = s(std::vector<Site>{});
      mc::check(got.names.empty(), "a complete contraction has edges");
      mc::check(close(wide(T(got)), m.network.value({}), scale), "wrong complete contraction");
      mc::outcome(1);
   } else if (q.kind == 2) {
      T got = s(std::map<Site, Tensor>{});
      mc::check(close(wide(got), m.network.value({}), scale), "wrong complete contraction without replacement");
   } else if (q.kind == 1) {
      auto [i, j] = q.a;
      Tensor got = s(std::vector<Site>{q.a}, q.hint);
      auto& t = m.network.site[i][j];
      size_t legs = 0;
      std::pair<const char*, int> leg[] = {{"L", t.l}, {"R", t.r}, {"U", t.u}, {"D", t.d}};
      bool present[] = {j > 0, j < N - 1, i > 0, i < M - 1};
      for (int k = 0; k < 4; k++)
         if (auto n = leg[k].first; present[k]) {
            legs++;
            mc::check(has(got, std::string(n) + "0"), std::string("the hole has no edge ") + n + "0");
            mc::check(dimension(got, std::string(n) + "0") == leg[k].second, "an edge of the hole has another dimension");
         }
      mc::check(got.names.size() == legs, "the hole has other edges");
      for (int l = 0; l < t.l; l++)
         for (int r = 0; r < t.r; r++)
            for (int u = 0; u < t.u; u++)
               for (int d = 0; d < t.d; d++) {
                  auto want = m.network.value({}, i, j, l, r, u, d);
                  auto have = wide(element(got, {{"L0", l}, {"R0", r}, {"U0", u}, {"D0", d}}));
                  mc::check(close(have, want, scale), "wrong element of the hole");
               }
   } else {
      std::map<Site, Tensor> with;
      Model n = m;
      for (auto& x : {q.a, q.b}) {
         auto [i, j] = x;
         if (&x != &q.a && q.kind == 3) break;
         with[x] = content(i, j, 50);
         n.network.site[i][j] = content(i, j, 50);
         if (q.kind == 3) break;
      }
      T got = s(with, q.hint);
      mc::check(close(wide(got), n.network.value({}), scale), "wrong contraction with a replaced site");
   }
}
static Size tight() {
   Size best = 1;
   auto line = [&](int length, auto&& width) {
      for (int k = 1; k < length; k++) {
         Size a = 1, b = 1;
         for (int i = 0; i < length; i++) (i < k ? a : b) *= width(i);
         best = std::max(best, std::min(a, b));
      }
   };
   for (int i = 0; i + 1 < M; i++) line(N, [&](int j) { return vertical(i, j); });
   for (int j = 0; j + 1 < N; j++) line(M, [&](int i) { return horizontal(i, j); });
   return best;
}
void body() {
   static const int shape[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}, {4, 2}, {2, 4}, {1, 5}, {5, 1}, {4, 3}, {3, 4}, {4, 4}};
   int which = mc::choose(16, "lattice");
   M = shape[which][0];
   N = shape[which][1];
   bool large = M * N > 6, huge = M * N > 9;
   bool beyond = which >= 9 && !mc::thorough(); // everything read, any one site changed, everything read
   widths = beyond ? 2 + mc::choose(2, "bond dimensions") : large && !mc::thorough() ? 1 : mc::choose(huge ? 1 : 3, "bond dimensions");
   if (huge && mc::thorough()) widths = 2 + mc::choose(2, "bond dimensions");
   int scenario = beyond ? 0 : mc::choose(5, "scenario");
   auto all = queries();
   auto pick_query = [&](const char* l) { return all[mc::choose(int(all.size()), l)]; };
   auto pick_site = [&](const char* l) {
      int k = mc::choose(M * N, l);
      return Site{k / N, k % N};
   };
   // three that keep everything; the last one nothing to spare: a row of the network, cut anywhere, has no more
   // independent states on one side than the bonds of the fewer columns there have
   Size cut = std::vector<Size>{1000, 81, tight()}[(which + scenario + widths) % 3];
   auto everything = [&](System& s, Model& m) {
      for (auto& q : all) ask(s, m, q);
   };
   auto make = [&](System& s, Model& m) {
      m.network = Network(M, N);
      m.version.assign(M, std::vector<int>(N, -1));
      for (int i = 0; i < M; i++)
         for (int j = 0; j < N; j++) {
            put(m, i, j, 0);
            s.lattice[i][j]->set(content(i, j, 0));
         }
   };
   auto set = [&](System& s, Model& m, Site x, int version) {
      auto [i, j] = x;
      put(m, i, j, version);
      if (version < 0) s.lattice[i][j]->unset();
      else s.lattice[i][j]->set(content(i, j, version));
      if (mc::replaying()) mc::note((version < 0 ? "unset (" : "set (") + std::to_string(i) + "," + std::to_string(j) + ")");
   };
   if (scenario == 0) { // read, change, read
      int q = beyond ? int(all.size()) : mc::choose(int(all.size()) + 1, "first read"); // the last: all of them
      auto a = pick_site("site to change");
      bool twice = !large && mc::flip("unset in between");
      mc::commit();
      int r = M * N > 4 ? int(all.size()) : mc::choose(int(all.size()) + 1, "second read");
      System s(M, N, cut);
      Model m;
      make(s, m);
      auto read = [&](int k) {
         if (k == int(all.size())) everything(s, m);
         else ask(s, m, all[k]);
      };
      read(q);
      if (twice) set(s, m, a, -1);
      set(s, m, a, 1);
      read(r);
      read(q);
   } else if (scenario == 1) { // two changes with a read in between, everything read at the end
      if (large && !mc::thorough()) mc::skip();
      auto a = pick_site("first site");
      auto b = pick_site("second site");
      mc::commit();
      auto q = M * N > 4 && !mc::thorough() ? all[mc::choose(4, "read") * (all.size() / 4)] : pick_query("read");
      System s(M, N, cut);
      Model m;
      make(s, m);
      set(s, m, a, 1);
      ask(s, m, q);
      set(s, m, b, 2);
      ask(s, m, q);
      set(s, m, a, 0);
      everything(s, m);
   } else if (scenario == 2) { // copies
      int how = mc::choose(6, "way to copy");
      int moment = mc::choose(3, "state of the original"); // nothing read, read, a site unset
      auto a = pick_site("site to change");
      mc::commit();
      bool change_copy = mc::flip("change the copy");
      auto q = M * N > 4 && !mc::thorough() ? all[mc::choose(3, "read") * (all.size() / 3) + 1] : pick_query("read");
      auto s = std::make_unique<System>(M, N, cut);
      Model m;
      make(*s, m);
      if (moment == 1) ask(*s, m, q);
      if (moment == 2) set(*s, m, a, -1);
      Model n = m;
      std::unique_ptr<System> c;
      bool gone = false;
      static const char* ways[] = {"copied", "assigned", "assigned over a used one", "moved", "move-assigned", "assigned to itself"};
      if (mc::replaying()) mc::note(ways[how]);
      if (how == 0) c = std::make_unique<System>(*s);
      if (how == 1) {
         c = std::make_unique<System>();
         *c = *s;
      }
      if (how == 2 || how == 4) {
         c = std::make_unique<System>(N, M, 5);
         for (auto& row : c->lattice)
            for (auto& x : row) x->set(Tensor(T(2)));
         if (how == 2) *c = *s;
         else *c = std::move(*s), gone = true;
      }
      if (how == 3) c = std::make_unique<System>(std::move(*s)), gone = true;
      if (how == 5) {
         auto& same = *s;
         *s = same;
         c = std::make_unique<System>(*s);
      }
      if (gone) s.reset();
      mc::check(c->M == M && c->N == N && c->dimension_cut == cut, "a copy has another size");
      if (gone || change_copy) set(*c, n, a, 3);
      else set(*s, m, a, 3);
      if (moment == 2 && !gone) {
         // what was unset in the original is unset in the copy
         if (change_copy) set(*s, m, a, 4);
         else set(*c, n, a, 4);
      }
      ask(*c, n, q);
      if (s) ask(*s, m, q);
      if (s) {
         s.reset(); // the copy needs nothing of the original
         set(*c, n, a, 5);
         ask(*c, n, q);
      }
   } else if (scenario == 3) { // snapshots
      auto a = pick_site("site to change");
      auto q = pick_query("read before");
      mc::commit();
      int moment = mc::choose(3, "read between");
      auto r = M * N > 4 ? q : pick_query("read after");
      System s(M, N, cut);
      Model m;
      make(s, m);
      ask(s, m, q);
      auto snapshot = s.graph.dump();
      Model n = m;
      set(s, m, a, 1);
      if (moment == 1) ask(s, m, q);
      if (moment == 2) ask(s, m, r);
      s.graph.load(snapshot);
      ask(s, n, r);
      set(s, n, a, 2);
      ask(s, n, r);
      ask(s, n, q);
      everything(s, n);
   } else { // requests that are not supported are refused, and then everything is as before
      auto a = pick_site("first site");
      auto b = pick_site("second site");
      mc::commit();
      System s(M, N, cut);
      Model m;
      make(s, m);
      auto [x1, y1] = a;
      auto [x2, y2] = b;
      bool neighbours = std::abs(x1 - x2) + std::abs(y1 - y2) == 1;
      if (a == b || neighbours) mc::skip();
      int refused = 0;
      try {
         s(std::map<Site, Tensor>{{a, content(x1, y1, 1)}, {b, content(x2, y2, 1)}});
      } catch (const square::NotImplementedError&) {
         refused++;
      }
      try {
         s(std::vector<Site>{a, b});
      } catch (const square::NotImplementedError&) {
         refused++;
      }
      (void)refused; // a later version may support them
      everything(s, m);
   }
}
int main(int argc, char** argv) { return mc::main(argc, argv, body); }
