// Scratch memory: whatever blocks are requested and however scopes nest and end, live blocks are disjoint, aligned, inside
// memory that is owned, and the resource that was in use before a scope is in use again after it.
#include "mc.hpp"
#include <TAT/TAT.hpp>
#include <cstring>
#include <list>

// upstream that knows what it gave out
struct Upstream : TAT::pmr::memory_resource {
   std::map<char*, size_t> live;
   long bad = 0;
   void* do_allocate(size_t n, size_t a) override {
      char* p = static_cast<char*>(::operator new(n + 32));
      std::memset(p, 0x5A, n + 32);
      live[p] = n;
      (void)a;
      return p;
   }
   void do_deallocate(void* q, size_t n, size_t) override {
      auto f = live.find(static_cast<char*>(q));
      if (f == live.end() || f->second != n) {
         bad++;
         return;
      }
      for (int i = 0; i < 32; i++)
         if (f->first[n + i] != 0x5A) bad++;
      ::operator delete(q);
      live.erase(f);
   }
   bool do_is_equal(const TAT::pmr::memory_resource& o) const noexcept override { return this == &o; }
   ~Upstream() {
      for (auto& [p, n] : live) ::operator delete(p);
   }
};
struct Block {
   unsigned char* p;
   size_t n;
   unsigned char mark;
};
struct Scope {
   std::vector<Block> blocks;
   std::unique_ptr<TAT::scope_resource<128>> guard;
   TAT::pmr::memory_resource* before;
};
void body() {
   bool scoped = mc::flip("scopes or resource");
   int depth = mc::thorough() ? (scoped ? 8 : 5) : (scoped ? 7 : 4);
   unsigned char mark = 1;
   static const size_t sizes[] = {0, 1, 5, 8, 40, 64, 100, 300, 1000};
   static const size_t aligns[] = {1, 2, 8, 16};
   auto intact = [](const std::vector<Block>& v) {
      for (auto& b : v)
         for (size_t i = 0; i < b.n; i++)
            if (b.p[i] != b.mark) return false;
      return true;
   };
   if (!scoped) {
      Upstream up;
      static const size_t firsts[] = {0, 3, 64, 128};
      size_t first = firsts[mc::choose(4, "first buffer")];
      size_t shift = mc::choose(2, "alignment of the first buffer") * 3;
      alignas(64) unsigned char raw[256];
      std::memset(raw, 0xA5, sizeof raw);
      {
         TAT::pmr::monotonic_buffer_resource r(raw + 16 + shift, first, &up);
         std::vector<Block> blocks;
         for (int step = 0; step < depth; step++) {
            if (step == 1) mc::commit();
            int op = mc::choose(10, "step");
            if (op == 9) {
               mc::check(intact(blocks), "a block changed that nobody wrote to");
               r.release();
               blocks.clear();
               mc::check(up.live.empty(), "memory is kept after a release");
            } else {
               size_t n = sizes[op], a = aligns[mc::choose(4, "alignment")];
               auto p = static_cast<unsigned char*>(r.allocate(n, a));
               mc::check(reinterpret_cast<size_t>(p) % a == 0, "a block is not aligned");
               bool inside = p >= raw + 16 + shift && p + n <= raw + 16 + shift + first;
               for (auto& [q, m] : up.live)
                  if (p >= reinterpret_cast<unsigned char*>(q) && p + n <= reinterpret_cast<unsigned char*>(q) + m) inside = true;
               mc::check(n == 0 || inside, "a block lies outside the memory of the resource");
               for (auto& b : blocks) mc::check(n == 0 || b.n == 0 || p + n <= b.p || b.p + b.n <= p, "two live blocks overlap");
               std::memset(p, mark, n);
               blocks.push_back({p, n, mark++});
               r.deallocate(p, 0, a);
               // returning a block early must not make it available again
            }
            mc::step();
            mc::state(mc::mix(mc::mix(blocks.size(), up.live.size()), mc::mix(first * 4 + shift, blocks.empty() ? 0 : blocks.back().n)));
         }
         mc::check(intact(blocks), "a block changed that nobody wrote to");
      }
      mc::check(up.live.empty() && up.bad == 0, "memory is lost or returned wrongly");
      for (size_t i = 0; i < sizeof raw; i++)
         if (i < 16 + shift || i >= 16 + shift + first) mc::check(raw[i] == 0xA5, "written outside the first buffer");
      return;
   }
   // nested scopes, with containers living in them
   Upstream up;
   auto original = TAT::pmr::set_default_resource(&up);
   std::vector<Scope> stack;
   std::vector<Block> outer;
   struct Box {
      std::unique_ptr<TAT::pmr::vector<int>> v;
      std::unique_ptr<TAT::pmr::map<int, int>> m;
      int count = 0;
   };
   std::vector<std::vector<Box>> boxes(1);
   auto valid = [&] {
      for (auto& level : boxes)
         for (auto& b : level) {
            if (b.v) {
               mc::check(int(b.v->size()) == b.count, "a container lost elements");
               for (int i = 0; i < b.count; i++) mc::check((*b.v)[i] == 7 * i, "an element of a container changed");
            }
            if (b.m) {
               mc::check(int(b.m->size()) == b.count, "a container lost elements");
               for (int i = 0; i < b.count; i++) mc::check(b.m->at(i) == 7 * i, "an element of a container changed");
            }
         }
   };
   for (int step = 0; step < depth; step++) {
      if (step == 2) mc::commit();
      int op = mc::choose(7, "step");
      if (op == 0) {
         if (stack.size() >= 4) mc::skip();
         Scope s;
         s.before = TAT::pmr::get_default_resource();
         s.guard = std::make_unique<TAT::scope_resource<128>>();
         mc::check(TAT::pmr::get_default_resource() != s.before, "a scope has no memory of its own");
         stack.push_back(std::move(s));
         boxes.emplace_back();
      } else if (op == 1) {
         if (stack.empty()) mc::skip();
         boxes.pop_back();
         auto before = stack.back().before;
         stack.pop_back();
         mc::check(TAT::pmr::get_default_resource() == before, "the resource before a scope is not in use after it");
      } else if (op <= 3) {
         Box b;
         if (op == 2) b.v = std::make_unique<TAT::pmr::vector<int>>();
         else b.m = std::make_unique<TAT::pmr::map<int, int>>();
         boxes.back().push_back(std::move(b));
      } else if (op == 6) {
         // a copy of an older container is made with the memory of the current scope
         std::vector<Box*> all;
         for (auto& l : boxes)
            for (auto& b : l) all.push_back(&b);
         if (all.empty()) mc::skip();
         auto s = all[mc::choose(int(all.size()), "container")];
         Box c;
         c.count = s->count;
         if (s->v) c.v = std::make_unique<TAT::pmr::vector<int>>(*s->v);
         else c.m = std::make_unique<TAT::pmr::map<int, int>>(*s->m);
         auto res = c.v ? c.v->get_allocator().resource() : c.m->get_allocator().resource();
         mc::check(res == TAT::pmr::get_default_resource(), "a copy does not use the memory of the current scope");
         boxes.back().push_back(std::move(c));
      } else {
         // grow: also a container of an outer scope
         std::vector<Box*> all;
         for (auto& l : boxes)
            for (auto& b : l) all.push_back(&b);
         if (all.empty()) mc::skip();
         auto s = all[mc::choose(int(all.size()), "container")];
         int n = op == 4 ? 1 : 40;
         for (int i = 0; i < n; i++, s->count++) {
            if (s->v) s->v->push_back(7 * s->count);
            else s->m->emplace(s->count, 7 * s->count);
         }
      }
      valid();
      mc::step();
      uint64_t h = stack.size();
      for (auto& l : boxes) {
         h = mc::mix(h, l.size());
         for (auto& b : l) h = mc::mix(h, b.count * 2 + bool(b.v));
      }
      mc::state(h);
   }
   mc::commit();
   while (!stack.empty()) {
      boxes.pop_back();
      auto before = stack.back().before;
      stack.pop_back();
      valid();
      mc::check(TAT::pmr::get_default_resource() == before, "the resource before a scope is not in use after it");
   }
   boxes.clear();
   mc::check(up.live.empty() && up.bad == 0, "memory is lost or returned wrongly");
   TAT::pmr::set_default_resource(original);
}
int main(int argc, char** argv) {
   auto original = TAT::pmr::get_default_resource();
   return mc::main(argc, argv, [&] {
      TAT::pmr::set_default_resource(original);
      body();
   });
}
