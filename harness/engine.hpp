// The random numbers of the square module under control: every draw is a choice between equally likely levels.
#pragma once
#include <cstdint>
#include <random>
#include <vector>
namespace draws {
   inline bool scripted = false;
   inline std::vector<int> script;      // levels, extended with zeros
   inline std::vector<bool> irrelevant; // draws that only fed a seed
   inline std::vector<uint64_t> words;  // used instead of levels when not empty
   inline size_t used = 0;
   inline int levels = 6;
   inline uint64_t free_state = 1;
   inline uint64_t word() {
      if (!scripted) {
         free_state += 0x9E3779B97F4A7C15ull;
         uint64_t z = free_state;
         z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
         z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
         return z ^ (z >> 31);
      }
      if (used == script.size()) {
         script.push_back(0);
         irrelevant.push_back(false);
      }
      int l = script[used];
      uint64_t w = used < words.size() ? words[used] : uint64_t(2 * l + 1) * ((uint64_t(1) << 63) / levels);
      used++;
      return w;
   }
   inline void seeded() {
      if (scripted && used) irrelevant[used - 1] = true;
   }
   inline void begin() {
      scripted = true;
      used = 0;
   }
   inline void end() { scripted = false; }
   inline void clear() {
      script.clear();
      irrelevant.clear();
      words.clear();
   }
   // the next script, depth first
   inline bool next() {
      script.resize(used);
      irrelevant.resize(used);
      while (!script.empty()) {
         if (!irrelevant.back() && ++script.back() < levels) return true;
         script.pop_back();
         irrelevant.pop_back();
      }
      return false;
   }
   inline double weight() { // of this leaf
      double w = 1;
      for (size_t i = 0; i < used; i++)
         if (!irrelevant[i]) w /= levels;
      return w;
   }
}
namespace std {
   struct mc_engine {
      using result_type = uint64_t;
      static constexpr result_type min() { return 0; }
      static constexpr result_type max() { return ~result_type(0); }
      mc_engine() = default;
      explicit mc_engine(result_type) {}
      void seed(result_type = 1) { draws::seeded(); }
      template<typename S, typename = decltype(std::declval<S&>().generate((uint32_t*)0, (uint32_t*)0))>
      void seed(S&) { draws::seeded(); }
      void discard(unsigned long long n) {
         while (n--) (*this)();
      }
      result_type operator()() { return draws::word(); }
      friend bool operator==(const mc_engine&, const mc_engine&) { return true; }
   };
}
#define default_random_engine mc_engine
