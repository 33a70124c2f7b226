// Bounded exhaustive explorer: every nondeterministic decision of a driver goes through choose(); the
// explorer replays the driver once per leaf of the resulting choice tree (stateless depth-first search).
#pragma once
#include <array>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {
   struct Skip {};
   struct Failure {
      std::string message;
   };
   constexpr int max_trace = 4000;
   // The live choice sequence sits in a shared mapping, so that the runner can read it after a crash or a hang.
   struct Shared {
      volatile int length;
      volatile int trace[max_trace];
      volatile long executions;
   };

   struct Explorer {
      std::vector<int> prefix;   // choices to replay
      std::vector<int> trace;    // choices of this execution
      std::vector<int> arity;    // and how many alternatives there were
      std::vector<std::string> labels;
      std::vector<std::string> notes;
      bool replaying = false;
      bool committed = false;
      bool is_thorough = false;
      int shard = 0, shards = 1;
      double budget = 1e18;
      long executions = 0, transitions = 0, comparisons = 0, skipped = 0;
      bool capped = false;
      std::set<std::string> listed;        // defects recorded in known_findings.txt
      std::map<std::string, long> known;   // and how often each was met
      std::unordered_set<uint64_t> states, outcomes;
      Shared* shared = nullptr;
      unsigned case_alarm = 60;

      int choose(int n, const char* label = "") {
         if (n <= 0) {
            fprintf(stderr, "driver error: choose(%d) at %s\n", n, label);
            _exit(97);
         }
         int c = 0;
         auto position = trace.size();
         if (position < prefix.size()) {
            c = prefix[position];
            if (c >= n) {
               fprintf(stderr, "driver error: divergence while replaying (%s: %d of %d)\n", label, c, n);
               _exit(97);
            }
         } else if (replaying && !prefix.empty()) {
            c = 0;
         }
         trace.push_back(c);
         arity.push_back(n);
         if (replaying) {
            labels.push_back(label);
         }
         if (shared && position < max_trace) {
            shared->trace[position] = c;
            shared->length = int(position) + 1;
         }
         return c;
      }

      uint64_t hash_trace() const {
         uint64_t h = 1469598103934665603ull;
         for (auto c : trace) {
            h = (h ^ uint64_t(c + 1)) * 1099511628211ull;
            h ^= h >> 29;
         }
         return h * 0x9E3779B97F4A7C15ull >> 20;
      }

      // End of the input choices: decides which shard runs this case.
      void commit() {
         if (committed) {
            return;
         }
         committed = true;
         if (!replaying && int(hash_trace() % shards) != shard) {
            throw Skip();
         }
         if (!replaying) {
            alarm(case_alarm);
         }
      }
   };
   inline Explorer G;

   inline int choose(int n, const char* label = "") {
      return G.choose(n, label);
   }
   template<typename T>
   const T& pick(const std::vector<T>& v, const char* label = "") {
      return v[choose(int(v.size()), label)];
   }
   inline bool flip(const char* label = "") {
      return choose(2, label) == 1;
   }
   inline void commit() {
      G.commit();
   }
   // false while the execution still repeats the beginning of an earlier one
   inline bool fresh() {
      return G.trace.size() >= G.prefix.size();
   }
   inline bool thorough() {
      return G.is_thorough;
   }
   [[noreturn]] inline void skip() {
      throw Skip();
   }
   [[noreturn]] inline void fail(const std::string& message) {
      throw Failure{message};
   }
   inline void check(bool ok, const char* message) {
      G.comparisons++;
      if (!ok) {
         fail(message);
      }
   }
   template<typename F>
   void check(bool ok, F&& message) {
      G.comparisons++;
      if (!ok) {
         if constexpr (std::is_invocable_v<F>) fail(message());
         else fail(message);
      }
   }
   // This execution shows a defect recorded under this identifier: counted if it is listed, a failure otherwise.
   inline void known(const std::string& id, const std::string& message) {
      if (!G.listed.count(id)) {
         fail(message);
      }
      G.known[id]++;
   }
   inline void note(const std::string& text) {
      if (G.replaying) {
         G.notes.push_back(text);
      }
   }
   inline bool replaying() {
      return G.replaying;
   }
   inline void step(long n = 1) {
      G.transitions += n;
   }
   inline uint64_t mix(uint64_t h, uint64_t x) {
      h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
      return h * 0xBF58476D1CE4E5B9ull;
   }
   inline uint64_t hash_bytes(uint64_t h, const void* p, size_t n) {
      auto c = static_cast<const unsigned char*>(p);
      for (size_t i = 0; i < n; i++) {
         h = (h ^ c[i]) * 1099511628211ull;
      }
      return h;
   }
   inline void state(uint64_t h) {
      if (G.states.size() < 4000000) {
         G.states.insert(h);
      }
   }
   inline void outcome(uint64_t h) {
      if (G.outcomes.size() < 1000000) {
         G.outcomes.insert(h);
      }
   }

   inline std::string join(const std::vector<int>& v) {
      std::string r;
      for (size_t i = 0; i < v.size(); i++) {
         r += (i ? "," : "") + std::to_string(v[i]);
      }
      return r;
   }
   inline std::string json_escape(const std::string& s) {
      std::string r;
      for (unsigned char c : s) {
         if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
         } else if (c == '\n') {
            r += "\\n";
         } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
         } else {
            r += c;
         }
      }
      return r;
   }
   inline double now() {
      timespec t;
      clock_gettime(CLOCK_MONOTONIC, &t);
      return t.tv_sec + t.tv_nsec * 1e-9;
   }

   // Runs the body once; returns a failure message ("" = held).
   inline std::string run_once(const std::function<void()>& body) {
      G.trace.clear();
      G.arity.clear();
      G.labels.clear();
      G.notes.clear();
      G.committed = false;
      try {
         body();
         G.executions++;
      } catch (const Skip&) {
         G.skipped++;
      } catch (const Failure& f) {
         return f.message.empty() ? "failed" : f.message;
      } catch (const std::exception& e) {
         return std::string("unexpected exception: ") + e.what();
      } catch (...) {
         return "unexpected exception of unknown type";
      }
      return "";
   }

   inline int main(int argc, char** argv, const std::function<void()>& body) {
      rlimit memory{3ul << 30, 3ul << 30}; // runaway allocation ends in bad_alloc instead of taking the machine down
      setrlimit(RLIMIT_AS, &memory);
      std::string out, replay, shm, state_file;
      bool have_replay = false;
      int within = 0;
      for (int i = 1; i < argc; i++) {
         std::string a = argv[i];
         auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
         if (a == "--shard") G.shard = atoi(next().c_str());
         else if (a == "--shards") G.shards = atoi(next().c_str());
         else if (a == "--out") out = next();
         else if (a == "--states") state_file = next();
         else if (a == "--shm") shm = next();
         else if (a == "--thorough") G.is_thorough = true;
         else if (a == "--budget") G.budget = atof(next().c_str());
         else if (a == "--alarm") G.case_alarm = atoi(next().c_str());
         else if (a == "--within") { // only the cases that begin with these choices
            std::stringstream ss(next());
            std::string item;
            while (std::getline(ss, item, ',')) G.prefix.push_back(atoi(item.c_str()));
            within = int(G.prefix.size());
         } else if (a == "--known") {
            std::stringstream ss(next());
            std::string item;
            while (std::getline(ss, item, ',')) G.listed.insert(item);
         } else if (a == "--replay") { replay = next(); have_replay = true; }
      }
      if (have_replay) {
         G.replaying = true;
         std::stringstream ss(replay);
         std::string item;
         while (std::getline(ss, item, ',')) {
            if (!item.empty()) G.prefix.push_back(atoi(item.c_str()));
         }
         auto message = run_once(body);
         printf("{\"failed\": %s, \"message\": \"%s\", \"choices\": [", message.empty() ? "false" : "true", json_escape(message).c_str());
         for (size_t i = 0; i < G.trace.size(); i++) {
            printf("%s{\"at\": \"%s\", \"choice\": %d, \"of\": %d}", i ? ", " : "", json_escape(G.labels[i]).c_str(), G.trace[i], G.arity[i]);
         }
         printf("], \"notes\": [");
         for (size_t i = 0; i < G.notes.size(); i++) {
            printf("%s\"%s\"", i ? ", " : "", json_escape(G.notes[i]).c_str());
         }
         printf("]}\n");
         fflush(stdout);
         return message.empty() ? 0 : 10;
      }
      if (!shm.empty()) {
         int fd = open(shm.c_str(), O_RDWR | O_CREAT, 0600);
         if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0) {
            G.shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
         }
      }
      double start = now();
      std::string failure, failing, sample;
      long last_sampled = 0;
      while (true) {
         auto message = run_once(body);
         if (!message.empty()) {
            failure = message;
            failing = join(G.trace);
            break;
         }
         if (G.committed && (G.executions & (G.executions - 1)) == 0 && G.executions != last_sampled) {
            last_sampled = G.executions;
            sample = join(G.trace);
         }
         G.transitions += G.committed ? long(G.trace.size()) : 0;
         if (G.shared) G.shared->executions = G.executions;
         // backtrack to the deepest choice that has an alternative left
         int i = int(G.trace.size()) - 1;
         while (i >= 0 && G.trace[i] + 1 >= G.arity[i]) i--;
         if (i < within) break;
         G.prefix.assign(G.trace.begin(), G.trace.begin() + i + 1);
         G.prefix.back()++;
         if (((G.executions + G.skipped) & 63) == 0 && now() - start > G.budget) {
            G.capped = true;
            break;
         }
      }
      alarm(0);
      FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
      std::string met;
      for (auto& [k, n] : G.known) met += (met.empty() ? "\"" : ", \"") + json_escape(k) + "\": " + std::to_string(n);
      fprintf(f,
              "{\"executions\": %ld, \"transitions\": %ld, \"comparisons\": %ld, \"states\": %zu, \"outcomes\": %zu, \"capped\": %s, "
              "\"known\": {%s}, \"seconds\": %.2f, \"failure\": \"%s\", \"trace\": \"%s\", \"sample\": \"%s\"}\n",
              G.executions, G.transitions, G.comparisons, G.states.size(), G.outcomes.size(), G.capped ? "true" : "false", met.c_str(), now() - start,
              json_escape(failure).c_str(), failing.c_str(), sample.c_str());
      if (f != stdout) fclose(f);
      if (!state_file.empty()) {
         FILE* s = fopen(state_file.c_str(), "wb");
         for (auto h : G.states) fwrite(&h, 8, 1, s);
         fclose(s);
      }
      return failure.empty() ? 0 : 10;
   }
} // namespace mc

#ifndef MC_NO_POISON
#include "poison.hpp"
#endif
