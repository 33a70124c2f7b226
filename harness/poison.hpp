#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
// Tensor data is the only user of over-aligned new: fill it with NaN bytes (a value that was never written is
// seen at once) and fence it (a write outside is seen when it is released).
namespace mc_poison {
   constexpr size_t fence = 512;
   inline void* get(size_t n, size_t align) {
      size_t pad = align > fence ? align : fence;
      void* base = nullptr;
      if (posix_memalign(&base, pad, n + 2 * pad)) throw std::bad_alloc();
      auto c = static_cast<unsigned char*>(base);
      memset(c, 0xA5, pad);
      memcpy(c, &n, sizeof n);
      memset(c + pad, 0xFF, n);
      memset(c + pad + n, 0xA5, pad);
      return c + pad;
   }
   inline void put(void* p, size_t align) {
      if (!p) return;
      size_t pad = align > fence ? align : fence;
      auto c = static_cast<unsigned char*>(p) - pad;
      size_t n;
      memcpy(&n, c, sizeof n);
      auto intact = [](const unsigned char* from, size_t count) {
         if (count < 8) {
            for (size_t i = 0; i < count; i++)
               if (from[i] != 0xA5) return false;
            return true;
         }
         uint64_t w;
         for (size_t i = 0; i + 8 <= count; i += 8) {
            memcpy(&w, from + i, 8);
            if (w != 0xA5A5A5A5A5A5A5A5ull) return false;
         }
         memcpy(&w, from + count - 8, 8);
         return w == 0xA5A5A5A5A5A5A5A5ull;
      };
      if (!intact(c + sizeof n, pad - sizeof n)) { fprintf(stderr, "write before tensor data\n"); abort(); }
      if (!intact(c + pad + n, pad)) { fprintf(stderr, "write past tensor data\n"); abort(); }
      free(c);
   }
}
void* operator new(size_t n, std::align_val_t a) { return mc_poison::get(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return mc_poison::get(n, size_t(a)); }
void operator delete(void* p, std::align_val_t a) noexcept { mc_poison::put(p, size_t(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { mc_poison::put(p, size_t(a)); }
void operator delete(void* p, size_t, std::align_val_t a) noexcept { mc_poison::put(p, size_t(a)); }
void operator delete[](void* p, size_t, std::align_val_t a) noexcept { mc_poison::put(p, size_t(a)); }
