// Lazily evaluated graphs: whatever was set, read, saved, restored, created and dropped before, reading a node gives the
// function of the current values of its inputs, and a node is computed again only if something above it changed.
#include "mc.hpp"
#include <lazy.hpp>
#include <array>
#include <map>
#include <optional>

// a value that notices when it is used after its end
struct Value {
   long number;
   unsigned alive = 0x600D600D;
   Value(long n = 0) : number(n) {}
   Value(const Value& o) : number(o.number) { o.check(); }
   Value& operator=(const Value& o) {
      o.check();
      number = o.number;
      return *this;
   }
   ~Value() {
      alive = 0xDEADDEAD;
      number = -77777777;
   }
   void check() const {
      if (alive != 0x600D600D) mc::fail("a value is used after its end");
   }
};
using RootP = std::shared_ptr<lazy::root<Value>>;
using NodeP = std::shared_ptr<lazy::node<Value>>;
using PathP = std::shared_ptr<lazy::path<Value>>;
enum Kind { ROOT, NODE, PATH };
struct Entity {
   Kind kind;
   RootP root;
   NodeP node;
   PathP path;
   std::vector<int> inputs;
   long value = 0; // of a root
   long calls = 0;
   bool clean = false; // computed, and nothing above changed since
   int graph = 0;
};
struct World {
   std::array<lazy::Graph, 2> graphs;
   std::vector<std::unique_ptr<Entity>> e;
   struct Saved {
      int graph;
      lazy::Snapshot snapshot;
      std::map<int, long> roots;
      std::map<int, bool> clean;
   };
   std::vector<Saved> saved;
   int active = 0;

   void use(int g) {
      active = g;
      lazy::use_graph(graphs[g]);
   }
   bool held(int i) { return e[i]->root || e[i]->node || e[i]->path; }
   long expected(int i) {
      auto& x = *e[i];
      if (x.kind == ROOT) return x.value;
      long r = 17 * (i + 1);
      for (auto j : x.inputs) r = r * 31 + expected(j);
      return r;
   }
   void dirty_below(int i) {
      for (size_t k = 0; k < e.size(); k++)
         for (auto j : e[k]->inputs)
            if (j == i && int(k) != i) {
               e[k]->clean = false;
               dirty_below(int(k));
            }
   }
   template<typename A>
   void make(Kind kind, int id, std::vector<int> inputs, A& a) {
      auto x = e[id].get();
      auto f = [x, id](const Value& p) {
         p.check();
         x->calls++;
         return Value(17 * (id + 1) * 31 + p.number);
      };
      if (kind == NODE) x->node = lazy::Node(f, a);
      else x->path = lazy::Path(f, a);
   }
   template<typename A, typename B>
   void make(Kind kind, int id, std::vector<int> inputs, A& a, B& b) {
      auto x = e[id].get();
      auto f = [x, id](const Value& p, const Value& q) {
         p.check();
         q.check();
         x->calls++;
         return Value((17 * (id + 1) * 31 + p.number) * 31 + q.number);
      };
      if (kind == NODE) x->node = lazy::Node(f, a, b);
      else x->path = lazy::Path(f, a, b);
   }
   template<typename F>
   void with(int i, F&& f) {
      if (e[i]->kind == ROOT) f(e[i]->root);
      else if (e[i]->kind == NODE) f(e[i]->node);
      else f(e[i]->path);
   }
   void create(Kind kind, std::vector<int> inputs, long value = 0) {
      int id = int(e.size());
      e.push_back(std::make_unique<Entity>());
      auto& x = *e[id];
      x.kind = kind;
      x.inputs = inputs;
      x.value = value;
      x.graph = active;
      if (kind == ROOT) {
         if (value % 2) x.root = lazy::Root(Value(value));
         else {
            x.root = lazy::Root<Value>();
            x.root->set(Value(value));
         }
      } else if (inputs.size() == 1) with(inputs[0], [&](auto& a) { make(kind, id, inputs, a); });
      else with(inputs[0], [&](auto& a) { with(inputs[1], [&](auto& b) { make(kind, id, inputs, a, b); }); });
   }
   void read(int i) {
      auto& x = *e[i];
      long want = expected(i);
      std::vector<long> before;
      for (auto& y : e) before.push_back(y->calls);
      long got = 0;
      if (x.kind == ROOT) got = x.root->get().number;
      else if (x.kind == NODE) {
         auto& v = x.node->get();
         v.check();
         got = v.number;
      } else got = x.path->get().number;
      mc::check(got == want, [&] { return "entity " + std::to_string(i) + " reads " + std::to_string(got) + " instead of " + std::to_string(want); });
      // computed at most once per read, and not at all if nothing changed
      std::vector<bool> seen(e.size());
      std::function<void(int)> visit = [&](int k) {
         if (seen[k]) return;
         seen[k] = true;
         auto& y = *e[k];
         if (y.kind == NODE) {
            long calls = y.calls - before[k];
            mc::check(calls <= 1, "a node is computed more than once in one read");
            mc::check(!y.clean || calls == 0, "a node is computed again although nothing changed above it");
         }
         for (auto j : y.inputs) visit(j);
         if (y.kind == NODE && y.calls > before[k]) y.clean = true;
      };
      visit(i);
      if (x.kind == NODE) x.clean = true;
   }
   ~World() { lazy::use_graph(); }
};
void body() {
   World w;
   bool two = mc::flip("two graphs");
   lazy::use_graph(w.graphs[0]);
   int shape = mc::choose(9, "shape");
   switch (shape) {
      case 0: // chain
         w.create(ROOT, {}, 1);
         w.create(NODE, {0});
         w.create(NODE, {1});
         break;
      case 1: // diamond
         w.create(ROOT, {}, 2);
         w.create(NODE, {0});
         w.create(NODE, {0});
         w.create(NODE, {1, 2});
         break;
      case 2: // through a path
         w.create(ROOT, {}, 1);
         w.create(PATH, {0});
         w.create(NODE, {1});
         break;
      case 3: // two roots
         w.create(ROOT, {}, 1);
         w.create(ROOT, {}, 2);
         w.create(NODE, {0, 1});
         w.create(NODE, {2, 0});
         break;
      case 4: // the same input twice
         w.create(ROOT, {}, 3);
         w.create(NODE, {0, 0});
         break;
      case 5: // short cut
         w.create(ROOT, {}, 1);
         w.create(NODE, {0});
         w.create(NODE, {1});
         w.create(NODE, {2, 1});
         break;
      case 6: // in two graphs
         w.create(ROOT, {}, 1);
         w.create(NODE, {0});
         if (two) w.use(1);
         w.create(NODE, {1});
         break;
      case 7: w.create(ROOT, {}, 1); break;
      case 8: // two that have nothing to do with one another
         w.create(ROOT, {}, 1);
         w.create(NODE, {0});
         w.create(ROOT, {}, 2);
         w.create(NODE, {2});
         break;
   }
   if (two && shape != 6) mc::skip();
   int depth = mc::thorough() ? 6 : 5;
   for (int step = 0; step < depth; step++) {
      if (step == 2) mc::commit();
      int n = int(w.e.size());
      // alternatives of this step
      std::vector<std::pair<int, std::vector<int>>> options;
      for (int i = 0; i < n; i++)
         if (w.held(i)) {
            options.push_back({0, {i}});                       // read
            if (w.e[i]->kind == ROOT) options.push_back({1, {i}}); // set
            if (step + 1 < depth && n > 1) options.push_back({4, {i}}); // drop the handle
         }
      if (step + 1 < depth) {
         options.push_back({2, {0}}); // save
         if (n < 5) {
            std::vector<int> h;
            for (int i = 0; i < n; i++)
               if (w.held(i)) h.push_back(i);
            if (!h.empty()) {
               options.push_back({5, {NODE, h.front()}});
               if (h.back() != h.front()) {
                  options.push_back({5, {NODE, h.back()}});
                  options.push_back({5, {NODE, h.front(), h.back()}});
                  options.push_back({5, {NODE, h.back(), h.front()}});
               }
               if (h.size() > 2) options.push_back({5, {NODE, h[h.size() - 2], h.back()}});
               options.push_back({5, {PATH, h.back()}});
            }
         }
         for (int i = 0; i < int(w.saved.size()); i++) options.push_back({3, {i}}); // restore
      }
      if (options.empty()) break;
      auto o = options[mc::choose(int(options.size()), "step")];
      auto& a = o.second;
      if (mc::replaying()) {
         static const char* names[] = {"read", "set", "save graph", "restore", "drop", "create"};
         std::string s = names[o.first];
         for (auto x : a) s += " " + std::to_string(x);
         mc::note(s);
      }
      switch (o.first) {
         case 0: w.read(a[0]); break;
         case 1:
            w.e[a[0]]->value = 100 + step * 10;
            if (step % 2) w.e[a[0]]->root->set(Value(100 + step * 10));
            else {
               Value v(100 + step * 10);
               w.e[a[0]]->root->set(v);
            }
            w.dirty_below(a[0]);
            break;
         case 2: {
            World::Saved s;
            s.graph = a[0];
            s.snapshot = w.graphs[a[0]].dump();
            for (int i = 0; i < n; i++)
               if (w.e[i]->graph == a[0]) {
                  if (w.e[i]->kind == ROOT) s.roots[i] = w.e[i]->value;
                  s.clean[i] = w.e[i]->clean;
               }
            w.saved.push_back(std::move(s));
            break;
         }
         case 3: {
            auto& s = w.saved[a[0]];
            w.graphs[s.graph].load(s.snapshot);
            for (auto& [i, v] : s.roots) w.e[i]->value = v;
            for (auto& x : w.e) x->clean = false;
            for (auto& [i, c] : s.clean) w.e[i]->clean = c;
            break;
         }
         case 4:
            w.e[a[0]]->root.reset();
            w.e[a[0]]->node.reset();
            w.e[a[0]]->path.reset();
            break;
         case 5:
            // a graph that is saved must contain everything it depends on, so what uses the second graph lives there
            w.use(0);
            for (size_t k = 1; k < a.size(); k++)
               if (w.e[a[k]]->graph == 1) w.use(1);
            w.create(Kind(a[0]), std::vector<int>(a.begin() + 1, a.end())); break;
      }
      mc::step();
      uint64_t h = mc::mix(shape, step);
      for (auto& x : w.e) h = mc::mix(mc::mix(mc::mix(mc::mix(h, x->value), x->clean), x->inputs.size()), bool(x->root || x->node || x->path));
      mc::state(mc::mix(h, w.saved.size()));
   }
   mc::commit();
   // at the end everything still held must read right
   for (int i = 0; i < int(w.e.size()); i++)
      if (w.held(i)) w.read(i);
   mc::outcome(w.e.size() * 100 + w.saved.size());
}
int main(int argc, char** argv) { return mc::main(argc, argv, body); }
