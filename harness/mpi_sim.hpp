// Simulated MPI ranks under the explorer. Every rank is a coroutine; a rank runs until its next MPI call, which becomes a pending
// operation; the explorer picks which enabled operation happens next. A standard-mode send may be buffered or wait for its
// receiver: both are explored. A state (what each rank has observed so far, the messages under way) that was explored before in
// the same configuration is not explored again.
#pragma once
#include "mc.hpp"
#include <mpi.h>
#include <complex>
#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <ucontext.h>
#include <unordered_set>
#include <vector>

namespace sim {
   struct Cancelled {};
   enum Kind { SEND, RECV, PROBE, IPROBE, WAIT, COLLECTIVE };
   struct Message {
      int source, destination, tag;
      std::string data;
      const void* buffer = nullptr; // not yet copied: the sender still owns it
      size_t length = 0;
      bool matched = false, claimed = false;
      uint64_t origin = 0; // what the sender had observed when it sent this: determines the contents
   };
   struct Pending {
      Kind kind;
      int peer = 0, tag = 0;
      void* buffer = nullptr;
      size_t capacity = 0;
      MPI_Status* status = nullptr;
      int* flag = nullptr;
      bool posted = false;
      bool synchronous = false, buffered = false;
      std::shared_ptr<Message> message;
      MPI_Request_t* request = nullptr;
      // collectives
      int operation = 0, root = 0, type = 0, function = 0, count = 0;
      const void* input = nullptr;
      bool released = false;
      std::shared_ptr<Message>* claim = nullptr;
      std::shared_ptr<Message> claimed;
   };
   struct Rank {
      ucontext_t context;
      std::vector<char> stack;
      bool started = false, finished = false, waiting = false;
      Pending* pending = nullptr;
      uint64_t history = 1;
      std::exception_ptr error;
   };
   struct World {
      std::vector<std::unique_ptr<Rank>> ranks;
      std::deque<std::shared_ptr<Message>> messages; // in order of posting
      ucontext_t main;
      int current = -1;
      bool cancel = false;
      std::function<void(int)> program;
      std::function<void(int)> enter; // called whenever a rank begins to run
      int initialized = 0, finalized = 0;
      uint64_t configuration = 0;
   };
   inline World* W = nullptr;
   // bounded mode: follow a policy (0: first option, 1: last, 2: after the rank that ran last) and leave it at most so many times
   inline int policy = 0, deviations = -1;
   inline std::unordered_set<uint64_t> seen;
   inline int world_size() { return W ? int(W->ranks.size()) : 1; }
   inline int world_rank() { return W ? W->current : 0; }
   inline void observe(const void* data, size_t n, uint64_t tag) {
      auto& r = *W->ranks[W->current];
      r.history = mc::mix(mc::hash_bytes(r.history, data, n), tag);
   }
   inline void yield_to_scheduler() {
      auto& r = *W->ranks[W->current];
      swapcontext(&r.context, &W->main);
      if (W->cancel) throw Cancelled();
   }
   inline void perform(Pending& p) {
      if (!W || W->current < 0) mc::fail("communication outside of the program");
      if (W->finalized) mc::fail("communication after MPI_Finalize");
      W->ranks[W->current]->pending = &p;
      yield_to_scheduler();
      W->ranks[W->current]->pending = nullptr;
   }
   inline void trampoline() {
      int me = W->current;
      auto& r = *W->ranks[me];
      try {
         W->program(me);
      } catch (const Cancelled&) {
      } catch (...) {
         r.error = std::current_exception();
      }
      r.finished = true;
      swapcontext(&r.context, &W->main);
   }
   inline void resume(int i) {
      auto& r = *W->ranks[i];
      W->current = i;
      if (W->enter) W->enter(i);
      if (!r.started) {
         r.started = true;
         getcontext(&r.context);
         r.stack.resize(256 * 1024);
         r.context.uc_stack.ss_sp = r.stack.data();
         r.context.uc_stack.ss_size = r.stack.size();
         r.context.uc_link = &W->main;
         makecontext(&r.context, trampoline, 0);
      }
      swapcontext(&W->main, &r.context);
      W->current = -1;
      if (r.error) {
         auto e = r.error;
         r.error = nullptr;
         std::rethrow_exception(e);
      }
   }
   inline bool matches(const Message& m, int me, int source, int tag) {
      return m.destination == me && !m.matched && !m.claimed && (source == MPI_ANY_SOURCE || m.source == source) && (tag == MPI_ANY_TAG || m.tag == tag);
   }
   // the messages a receive may take: per source the first that matches (messages between two ranks do not overtake)
   inline std::vector<std::shared_ptr<Message>> candidates(int me, int source, int tag) {
      std::vector<std::shared_ptr<Message>> r;
      std::vector<bool> have(W->ranks.size());
      for (auto& m : W->messages)
         if (matches(*m, me, source, tag) && !have[m->source]) {
            have[m->source] = true;
            r.push_back(m);
         }
      return r;
   }
   inline void fill(MPI_Status* s, const Message& m) {
      if (!s) return;
      s->MPI_SOURCE = m.source;
      s->MPI_TAG = m.tag;
      s->MPI_ERROR = 0;
      s->length = long(m.length);
   }
   struct Option {
      int rank;
      int which; // message candidate, or 0 and 1: buffered, synchronous
   };
}
struct MPI_Request_t {
   bool done = false, receive = false;
   std::shared_ptr<sim::Message> message;
   void* buffer = nullptr;
   size_t capacity = 0;
   int source = 0, tag = 0, owner = 0;
};
struct MPI_Message_t {
   std::shared_ptr<sim::Message> message;
};
namespace sim {
   inline std::vector<Option> options() {
      std::vector<Option> r;
      bool all = true; // everybody in a collective?
      for (auto& x : W->ranks)
         if (x->finished || !x->pending || x->pending->kind != COLLECTIVE || x->pending->released) all = false;
      for (int i = 0; i < int(W->ranks.size()); i++) {
         auto& x = *W->ranks[i];
         if (x.finished) continue;
         if (!x.pending) { // has not begun
            r.push_back({i, 0});
            continue;
         }
         auto& p = *x.pending;
         switch (p.kind) {
            case SEND:
               if (!p.posted) {
                  if (p.synchronous) r.push_back({i, 1});
                  else if (p.buffered) r.push_back({i, 0});
                  else {
                     r.push_back({i, 0});
                     r.push_back({i, 1});
                  }
               } else if (p.message->matched) r.push_back({i, 0});
               break;
            case RECV:
            case PROBE: {
               int n = int(candidates(i, p.peer, p.tag).size());
               for (int k = 0; k < n; k++) r.push_back({i, k});
               break;
            }
            case IPROBE: r.push_back({i, 0}); break;
            case WAIT:
               if (p.request->done) r.push_back({i, 0});
               else if (p.request->receive) {
                  int n = int(candidates(i, p.request->source, p.request->tag).size());
                  for (int k = 0; k < n; k++) r.push_back({i, k});
               } else if (p.request->message->matched) r.push_back({i, 0});
               break;
            case COLLECTIVE:
               if (all || p.released) r.push_back({i, 0});
               break;
         }
      }
      return r;
   }
   inline void take(Message& m, void* buffer, size_t capacity, MPI_Status* status, int me) {
      if (m.length > capacity) mc::fail("a message is longer than the buffer it is received into");
      std::memcpy(buffer, m.buffer ? m.buffer : m.data.data(), m.length);
      m.matched = true;
      fill(status, m);
      W->current = me;
      observe(&m.origin, sizeof(m.origin), 100 + m.source);
      for (auto it = W->messages.begin(); it != W->messages.end(); ++it)
         if (it->get() == &m) {
            W->messages.erase(it);
            break;
         }
   }
   template<typename T>
   void combine(T* to, const T* from, int n, int op) {
      for (int i = 0; i < n; i++) {
         if constexpr (std::is_arithmetic_v<T>) {
            if (op == MPI_MAX) to[i] = std::max(to[i], from[i]);
            else if (op == MPI_MIN) to[i] = std::min(to[i], from[i]);
            else to[i] += from[i];
         } else to[i] += from[i];
      }
   }
   inline void combine(std::string& to, const std::string& from, int n, int type, int op) {
      auto a = to.data();
      auto b = from.data();
      switch (type) {
         case MPI_INT: return combine((int*)a, (const int*)b, n, op);
         case MPI_UINT32_T: return combine((uint32_t*)a, (const uint32_t*)b, n, op);
         case MPI_LONG: return combine((int64_t*)a, (const int64_t*)b, n, op);
         case MPI_UINT64_T: return combine((uint64_t*)a, (const uint64_t*)b, n, op);
         case MPI_FLOAT: return combine((float*)a, (const float*)b, n, op);
         case MPI_DOUBLE: return combine((double*)a, (const double*)b, n, op);
         case MPI_C_FLOAT_COMPLEX: return combine((std::complex<float>*)a, (const std::complex<float>*)b, n, op);
         case MPI_C_DOUBLE_COMPLEX: return combine((std::complex<double>*)a, (const std::complex<double>*)b, n, op);
         default: mc::fail("reduction of a type the simulation does not know");
      }
   }
   inline void collective() { // everybody has arrived
      auto& first = *W->ranks[0]->pending;
      for (auto& r : W->ranks) {
         auto& p = *r->pending;
         if (p.operation != first.operation || p.root != first.root || (p.operation && p.capacity != first.capacity)) mc::fail("ranks take part in different collective operations");
      }
      std::string result;
      if (first.operation == 1) result.assign((const char*)W->ranks[first.root]->pending->buffer, first.capacity);
      if (first.operation >= 2) {
         for (size_t i = 0; i < W->ranks.size(); i++) {
            auto& p = *W->ranks[i]->pending;
            std::string mine((const char*)(p.input == MPI_IN_PLACE ? p.buffer : p.input), p.capacity);
            if (i == 0) result = mine;
            else combine(result, mine, p.count, p.type, p.function);
         }
      }
      for (size_t i = 0; i < W->ranks.size(); i++) {
         auto& p = *W->ranks[i]->pending;
         if (first.operation == 1 || first.operation == 3 || (first.operation == 2 && int(i) == first.root)) std::memcpy(p.buffer, result.data(), p.capacity);
         p.released = true;
         W->ranks[i]->history = mc::mix(mc::hash_bytes(W->ranks[i]->history, result.data(), result.size()), 7);
      }
   }
   inline std::shared_ptr<Message> post(int me, const void* buffer, size_t length, int destination, int tag, bool copy) {
      auto m = std::make_shared<Message>();
      m->source = me;
      m->destination = destination;
      m->tag = tag;
      m->length = length;
      if (copy) m->data.assign((const char*)buffer, length);
      else m->buffer = buffer;
      auto& h = W->ranks[me]->history;
      h = mc::mix(h, 31 + destination);
      m->origin = mc::mix(h, length);
      W->messages.push_back(m);
      return m;
   }
   // returns true if the rank continues
   inline bool execute(const Option& o) {
      auto& x = *W->ranks[o.rank];
      if (!x.pending) return true;
      auto& p = *x.pending;
      switch (p.kind) {
         case SEND:
            if (p.posted) return true;
            p.posted = true;
            p.message = post(o.rank, p.buffer, p.capacity, p.peer, p.tag, o.which == 0);
            x.history = mc::mix(x.history, 11 + o.which);
            return o.which == 0;
         case RECV: take(*candidates(o.rank, p.peer, p.tag)[o.which], p.buffer, p.capacity, p.status, o.rank); return true;
         case PROBE: {
            auto m = candidates(o.rank, p.peer, p.tag)[o.which];
            fill(p.status, *m);
            if (p.claim) {
               m->claimed = true;
               *p.claim = m;
            }
            x.history = mc::mix(x.history, 1000 + m->source * 100000 + m->length);
            return true;
         }
         case IPROBE: {
            auto c = candidates(o.rank, p.peer, p.tag);
            *p.flag = !c.empty();
            if (!c.empty()) fill(p.status, *c[0]);
            x.history = mc::mix(x.history, 2000 + c.size());
            return true;
         }
         case WAIT:
            if (p.request->done) return true;
            if (p.request->receive) take(*candidates(o.rank, p.request->source, p.request->tag)[o.which], p.request->buffer, p.request->capacity, p.status, o.rank);
            p.request->done = true;
            return true;
         case COLLECTIVE:
            if (!p.released) collective();
            return true;
      }
      return true;
   }
   inline uint64_t state_hash() {
      uint64_t h = W->configuration;
      for (auto& r : W->ranks) {
         h = mc::mix(h, r->history);
         h = mc::mix(h, r->finished ? 3 : !r->started ? 4 : r->pending ? 10 + r->pending->kind * 4 + r->pending->posted * 2 + r->pending->released : 5);
      }
      // messages of different pairs of ranks commute
      uint64_t all = 0;
      std::vector<std::vector<uint64_t>> queue(W->ranks.size() * W->ranks.size());
      for (auto& m : W->messages) queue[m->source * W->ranks.size() + m->destination].push_back(mc::mix(mc::mix(m->tag + 5, m->origin), (m->buffer ? 1 : 0) + m->claimed * 2));
      for (auto& q : queue) {
         all = mc::mix(all, q.size());
         for (auto& m : q) all = mc::mix(all, m);
      }
      return mc::mix(h, all);
   }
   // explore the program on n ranks; the schedule is chosen by the explorer
   inline void run(int n, uint64_t configuration, std::function<void(int)> program, std::function<void(int)> enter = {}) {
      World world;
      for (int i = 0; i < n; i++) world.ranks.push_back(std::make_unique<Rank>());
      world.program = program;
      world.enter = enter;
      world.configuration = configuration;
      W = &world;
      struct Cleanup {
         World& w;
         ~Cleanup() {
            w.cancel = true;
            for (size_t i = 0; i < w.ranks.size(); i++) {
               auto& r = *w.ranks[i];
               if (r.started && !r.finished) {
                  w.current = int(i);
                  swapcontext(&w.main, &r.context);
               }
            }
            W = nullptr;
         }
      } cleanup{world};
      int left = deviations, last = -1;
      while (true) {
         auto o = options();
         bool done = true;
         for (auto& r : world.ranks) done = done && r->finished;
         if (done) break;
         if (o.empty()) {
            std::string who;
            for (size_t i = 0; i < world.ranks.size(); i++)
               if (!world.ranks[i]->finished) who += " " + std::to_string(i) + ":" + std::vector<std::string>{"send to ", "receive from ", "probe ", "iprobe ", "wait ", "collective "}[world.ranks[i]->pending->kind] + std::to_string(world.ranks[i]->pending->peer);
            mc::fail("deadlock, ranks wait forever:" + who);
         }
         int c = 0, count = int(o.size());
         if (deviations < 0) c = count == 1 ? 0 : mc::choose(count, "schedule");
         else {
            int usual = policy == 1 ? count - 1 : 0;
            if (policy == 2)
               for (int i = count; i-- > 0;)
                  if (o[i].rank > last) usual = i;
            if (count > 1 && left > 0) {
               c = mc::choose(count, "schedule");
               if (c) left--;
            }
            c = (c + usual) % count;
            last = o[c].rank;
         }
         if (mc::replaying()) {
            auto& r = *world.ranks[o[c].rank];
            mc::note("rank " + std::to_string(o[c].rank) + " " + (!r.pending ? std::string("begins") : std::vector<std::string>{"sends to ", "receives from ", "probes ", "tests for ", "waits ", "takes part in a collective "}[r.pending->kind] + std::to_string(r.pending->peer) + (r.pending->kind == SEND && !r.pending->posted ? (o[c].which ? " (waiting for the receiver)" : " (buffered)") : "")));
         }
         if (execute(o[c])) resume(o[c].rank);
         mc::step();
         auto h = state_hash();
         mc::state(h);
         if (deviations < 0 && !mc::replaying() && mc::fresh() && o.size() > 1 && !seen.insert(h).second) mc::skip();
      }
      if (!world.messages.empty()) mc::fail("a message was sent and never received");
   }
   inline size_t bytes(int n, MPI_Datatype t) { return size_t(n) * (t & 255); }
}
inline int MPI_Init(int*, char***) { if (sim::W) sim::W->initialized = 1; return 0; }
inline int MPI_Init_thread(int*, char***, int want, int* have) { if (have) *have = want; return MPI_Init(nullptr, nullptr); }
inline int MPI_Finalize() { if (sim::W) sim::W->finalized = 1; return 0; }
inline int MPI_Initialized(int* r) { *r = sim::W ? sim::W->initialized : 0; return 0; }
inline int MPI_Finalized(int* r) { *r = sim::W ? sim::W->finalized : 0; return 0; }
inline int MPI_Abort(MPI_Comm, int) { mc::fail("MPI_Abort"); }
inline int MPI_Comm_size(MPI_Comm, int* r) { *r = sim::world_size(); return 0; }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = sim::world_rank(); return 0; }
inline double MPI_Wtime() { return 0; }
namespace sim {
   inline int send(const void* b, int n, MPI_Datatype t, int to, int tag, bool synchronous, bool buffered) {
      if (to == MPI_PROC_NULL) return 0;
      if (to < 0 || to >= world_size()) mc::fail("message to a rank that does not exist: " + std::to_string(to));
      if (n < 0) mc::fail("message of negative length");
      Pending p;
      p.kind = SEND;
      p.peer = to;
      p.tag = tag;
      p.buffer = const_cast<void*>(b);
      p.capacity = bytes(n, t);
      p.synchronous = synchronous;
      p.buffered = buffered;
      perform(p);
      return 0;
   }
   inline void check_source(int from) {
      if (from != MPI_ANY_SOURCE && (from < 0 || from >= world_size())) mc::fail("receiving from a rank that does not exist: " + std::to_string(from));
   }
}
inline int MPI_Send(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { return sim::send(b, n, t, to, tag, false, false); }
inline int MPI_Ssend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { return sim::send(b, n, t, to, tag, true, false); }
inline int MPI_Bsend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { return sim::send(b, n, t, to, tag, false, true); }
inline int MPI_Recv(void* b, int n, MPI_Datatype t, int from, int tag, MPI_Comm, MPI_Status* s) {
   sim::check_source(from);
   sim::Pending p;
   p.kind = sim::RECV;
   p.peer = from;
   p.tag = tag;
   p.buffer = b;
   p.capacity = sim::bytes(n, t);
   p.status = s;
   sim::perform(p);
   return 0;
}
inline int MPI_Probe(int from, int tag, MPI_Comm, MPI_Status* s) {
   sim::check_source(from);
   sim::Pending p;
   p.kind = sim::PROBE;
   p.peer = from;
   p.tag = tag;
   p.status = s;
   sim::perform(p);
   return 0;
}
inline int MPI_Iprobe(int from, int tag, MPI_Comm, int* flag, MPI_Status* s) {
   sim::Pending p;
   p.kind = sim::IPROBE;
   p.peer = from;
   p.tag = tag;
   p.flag = flag;
   p.status = s;
   sim::perform(p);
   return 0;
}
inline int MPI_Mprobe(int from, int tag, MPI_Comm, MPI_Message* m, MPI_Status* s) {
   sim::check_source(from);
   auto x = new MPI_Message_t;
   sim::Pending p;
   p.kind = sim::PROBE;
   p.peer = from;
   p.tag = tag;
   p.status = s;
   p.claim = &x->message;
   sim::perform(p);
   *m = x;
   return 0;
}
inline int MPI_Mrecv(void* b, int n, MPI_Datatype t, MPI_Message* m, MPI_Status* s) {
   int me = sim::W->current;
   sim::take(*(*m)->message, b, sim::bytes(n, t), s, me);
   delete *m;
   *m = nullptr;
   return 0;
}
inline int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) {
   *n = s->length % (t & 255) ? MPI_UNDEFINED : int(s->length / (t & 255));
   return 0;
}
inline int MPI_Isend(const void* b, int n, MPI_Datatype t, int to, int tag, MPI_Comm, MPI_Request* r) {
   if (to < 0 || to >= sim::world_size()) mc::fail("message to a rank that does not exist: " + std::to_string(to));
   *r = new MPI_Request_t;
   (*r)->owner = sim::W->current;
   (*r)->message = sim::post(sim::W->current, b, sim::bytes(n, t), to, tag, false);
   return 0;
}
inline int MPI_Irecv(void* b, int n, MPI_Datatype t, int from, int tag, MPI_Comm, MPI_Request* r) {
   sim::check_source(from);
   *r = new MPI_Request_t;
   (*r)->owner = sim::W->current;
   (*r)->receive = true;
   (*r)->buffer = b;
   (*r)->capacity = sim::bytes(n, t);
   (*r)->source = from;
   (*r)->tag = tag;
   return 0;
}
inline int MPI_Wait(MPI_Request* r, MPI_Status* s) {
   if (!*r) return 0;
   sim::Pending p;
   p.kind = sim::WAIT;
   p.request = *r;
   p.status = s;
   sim::perform(p);
   delete *r;
   *r = MPI_REQUEST_NULL;
   return 0;
}
inline int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s) {
   for (int i = 0; i < n; i++) MPI_Wait(r + i, s ? s + i : s);
   return 0;
}
inline int MPI_Sendrecv(const void* b, int n, MPI_Datatype t, int to, int tag, void* rb, int rn, MPI_Datatype rt, int from, int rtag, MPI_Comm c, MPI_Status* s) {
   MPI_Request r;
   MPI_Isend(b, n, t, to, tag, c, &r);
   MPI_Recv(rb, rn, rt, from, rtag, c, s);
   return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
namespace sim {
   inline int collective_call(int operation, int root, void* buffer, const void* input, int count, MPI_Datatype type, int function) {
      if (!W || W->current < 0) return 0;
      if (operation && (root < 0 || root >= world_size())) mc::fail("collective operation with a root that does not exist");
      Pending p;
      p.kind = COLLECTIVE;
      p.operation = operation;
      p.root = root;
      p.buffer = buffer;
      p.input = input;
      p.count = count;
      p.type = type;
      p.function = function;
      p.capacity = bytes(count, type);
      perform(p);
      return 0;
   }
}
inline int MPI_Barrier(MPI_Comm) { return sim::collective_call(0, 0, nullptr, nullptr, 0, MPI_BYTE, 0); }
inline int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) { return sim::collective_call(1, root, b, nullptr, n, t, 0); }
inline int MPI_Reduce(const void* i, void* b, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) { return sim::collective_call(2, root, b, i, n, t, op); }
inline int MPI_Allreduce(const void* i, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { return sim::collective_call(3, 0, b, i, n, t, op); }
