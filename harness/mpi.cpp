// Communication of tensors between ranks: every number of ranks, root, program of operations, every schedule, and for every
// message both ways a standard-mode send may behave.
#define TAT_USE_MPI
#include "mpi_sim.hpp"
#include "ref.hpp"
#include <iostream>

struct Operation {
   int kind; // 0 broadcast, 1 reduce, 2 send_receive, 3 barrier, 4 stream of messages, 5 a root that is no rank
   int a = 0, b = 0;
};
Operation choose_operation(int n) {
   Operation o;
   o.kind = mc::choose(6, "operation");
   if (o.kind == 0 || o.kind == 1) o.a = mc::choose(n, "root");
   if (o.kind == 5) {
      o.a = mc::choose(2, "operation");
      o.b = mc::pick(std::vector<int>{-1, -n, n, 2 * n}, "root");
      if (n == 1) mc::skip();
   }
   if (o.kind == 2 || o.kind == 4) {
      o.a = mc::choose(n, "source");
      o.b = mc::choose(n, "destination");
      if (o.kind == 4 && o.a == o.b) mc::skip(); // a blocking send to oneself is the caller's mistake
   }
   return o;
}
// what rank i contributes: shapes and contents differ between ranks
Ref contribution(int i, bool same_shape) {
   auto e = shapes(1)[same_shape ? 0 : i % 3];
   auto r = make_ref(first_names(2), {e, dual(e)}, 90 + (same_shape ? 0 : i));
   double base = 1;
   if (i >= 9) base = 5; // more would not be exact
   for (int k = 0; k < i % 9; k++) base *= 20;
   if (same_shape)
      for (auto& [k, v] : r.data) v = v * Real(base); // the sum tells who contributed how often
   return r;
}
bool valid(const Tensor& t) { return t.is_valid(); }

void body() {
   // few ranks: every schedule; more: schedules that leave one of three orderly ones a bounded number of times
   int complete = mc::thorough() ? 7 : 5;
   int n = 1 + mc::choose(17, "ranks");
   sim::deviations = -1;
   if (n > complete) {
      sim::policy = mc::choose(3, "policy of the schedule");
      sim::deviations = n <= 9 ? 1 : 0;
   }
   int length = n <= 3 ? 1 + mc::choose(mc::thorough() ? 3 : 2, "length") : n == 4 && mc::thorough() ? 2 : 1;
   std::vector<Operation> program;
   for (int i = 0; i < length; i++) program.push_back(choose_operation(n));
   mc::commit();
   uint64_t configuration = n;
   for (auto& o : program) configuration = mc::mix(mc::mix(mc::mix(configuration, o.kind), o.a), o.b);
   if (mc::replaying()) {
      static const char* names[] = {"broadcast", "reduce", "send_receive", "barrier", "messages", "refused root"};
      std::string s;
      for (auto& o : program) s += std::string(" ") + names[o.kind] + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + ")";
      mc::note(std::to_string(n) + " ranks:" + s);
   }
   std::vector<int> entered(program.size(), 0);
   std::vector<int> completed(n, 0);
   auto rank_program = [&](int me) {
      auto& mpi = TAT::mpi;
      for (size_t step = 0; step < program.size(); step++) {
         auto& o = program[step];
         entered[step]++;
         if (o.kind == 0) {
            auto r = contribution(me, false);
            auto mine = to_tensor(r);
            auto got = mpi.broadcast(mine, o.a);
            expect(got, contribution(o.a, false), "broadcast");
            expect(mine, r, "argument of broadcast");
         } else if (o.kind == 1) {
            auto r = contribution(me, true);
            auto mine = to_tensor(r);
            auto got = mpi.reduce(mine, o.a, [](const Tensor& x, const Tensor& y) { return Tensor(x + y); });
            if (me == o.a) {
               auto want = contribution(0, true);
               for (int i = 1; i < n; i++)
                  for (auto& [k, v] : contribution(i, true).data) want.data[k] += v;
               expect(got, want, "reduce");
            }
            expect(mine, r, "argument of reduce");
         } else if (o.kind == 2) {
            auto r = contribution(me, false);
            auto mine = to_tensor(r);
            auto got = mpi.send_receive(mine, o.a, o.b);
            if (me == o.b) expect(got, contribution(o.a, false), "send_receive");
            else mc::check(!valid(got) || got.names.empty(), "send_receive gives something to a rank that takes no part");
            expect(mine, r, "argument of send_receive");
         } else if (o.kind == 5) {
            auto r = contribution(me, true);
            auto mine = to_tensor(r);
            bool refused = false;
            try {
               if (o.a) mpi.broadcast(mine, o.b);
               else mpi.reduce(mine, o.b, [](const Tensor& x, const Tensor& y) { return Tensor(x + y); });
            } catch (const std::exception&) {
               refused = true;
            }
            mc::check(refused, "a root that is no rank is not refused");
            expect(mine, r, "argument of a refused request");
         } else if (o.kind == 3) {
            mpi.barrier();
            mc::check(entered[step] == n, "a rank leaves the barrier before all have come");
         } else {
            if (me == o.a) {
               mpi.send(to_tensor(contribution(1, false)), o.b);
               mpi.send(7, o.b);
               mpi.send(std::vector<double>{1, 2, 3}, o.b);
               mpi.send(to_tensor(contribution(2, false)), o.b);
            }
            if (me == o.b) {
               expect(mpi.template receive<Tensor>(o.a), contribution(1, false), "first message");
               mc::check(mpi.template receive<int>(o.a) == 7, "second message");
               mc::check(mpi.template receive<std::vector<double>>(o.a) == std::vector<double>{1, 2, 3}, "third message");
               expect(mpi.template receive<Tensor>(o.a), contribution(2, false), "fourth message");
            }
         }
         completed[me]++;
      }
   };
   sim::run(n, configuration, rank_program, [&](int i) {
      TAT::mpi.rank = i;
      TAT::mpi.size = n;
   });
   for (auto c : completed) mc::check(c == length, "a rank did not finish");
   mc::outcome(configuration);
   TAT::mpi.rank = 0;
   TAT::mpi.size = 1;
}
int main(int argc, char** argv) { return mc::main(argc, argv, body); }
