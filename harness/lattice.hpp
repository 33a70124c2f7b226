// Reference for the square lattice module: a network state is the plain sum over all bond indices.
#pragma once
#define TAT_USE_MPI
#include "mpi_sim.hpp"
#ifdef MC_ENGINE
#include "engine.hpp"
#endif
#include <square/square.hpp>
#include <iostream>
#include <map>
#ifndef SCALAR
#define SCALAR double
#endif
using T = SCALAR;
using Real = TAT::real_base_t<T>;
using Tensor = TAT::Tensor<T>;
using TAT::Size;
using Name = TAT::DefaultName;
using Site = std::tuple<int, int>;
using Positions = std::vector<Site>;
using Operator = std::shared_ptr<const Tensor>;

struct Quiet { // the module reports progress on the standard output
   Quiet() { std::cout.rdbuf(nullptr); std::clog.rdbuf(nullptr); std::cerr.rdbuf(nullptr); }
};
inline Quiet quiet;

inline double sequence(uint64_t i) { // numbers between -1 and 1 that do not repeat
   uint64_t h = mc::mix(i * 7919 + 13, 0x9E3779B97F4A7C15ull);
   return double(int64_t(h >> 12) - (int64_t(1) << 51)) / double(int64_t(1) << 51);
}
template<typename X = T>
X number(uint64_t i) {
   if constexpr (TAT::is_complex_v<X>) return X(Real(sequence(2 * i)), Real(sequence(2 * i + 1)));
   else return X(sequence(i));
}
inline std::complex<double> wide(T v) { return std::complex<double>(v); }
inline double tolerance() { return std::is_same_v<Real, float> ? 2e-3 : 1e-8; }

// element of a tensor without symmetry at named positions, names that the tensor does not have are ignored
inline T element(const Tensor& t, const std::map<std::string, int>& at) {
   std::map<Name, Size> m;
   for (auto& n : t.names) m[n] = at.at(static_cast<const std::string&>(n));
   return t.const_at(m);
}
inline int dimension(const Tensor& t, const std::string& name) {
   for (size_t i = 0; i < t.names.size(); i++)
      if (static_cast<const std::string&>(t.names[i]) == name) {
         int d = 0;
         for (auto& [s, n] : t.core->edges[i].map) d += int(n);
         return d;
      }
   return 1;
}
inline bool has(const Tensor& t, const std::string& name) {
   for (auto& n : t.names)
      if (static_cast<const std::string&>(n) == name) return true;
   return false;
}
// a site tensor as a plain array
struct Dense {
   int l = 1, r = 1, u = 1, d = 1, p = 1;
   std::vector<std::complex<double>> data;
   Dense() = default;
   Dense(const Tensor& t) : l(dimension(t, "L")), r(dimension(t, "R")), u(dimension(t, "U")), d(dimension(t, "D")), p(dimension(t, "P")) {
      std::map<std::string, int> at;
      for (int a = 0; a < l; a++)
         for (int b = 0; b < r; b++)
            for (int c = 0; c < u; c++)
               for (int e = 0; e < d; e++)
                  for (int f = 0; f < p; f++) data.push_back(wide(element(t, {{"L", a}, {"R", b}, {"U", c}, {"D", e}, {"P", f}})));
   }
   std::complex<double> operator()(int a, int b, int c, int e, int f) const { return data[(((a * r + b) * u + c) * d + e) * p + f]; }
};
// a network: tensors per site with edges L R U D (and P), contracted completely for given P; optionally with one site left out, whose
// four legs then have given values
struct Network {
   int M = 0, N = 0;
   std::vector<std::vector<Dense>> site;
   Network() = default;
   Network(int M, int N) : M(M), N(N), site(M, std::vector<Dense>(N)) {}
   Network(const std::vector<std::vector<Tensor>>& t) : M(int(t.size())), N(M ? int(t[0].size()) : 0), site(M, std::vector<Dense>(N)) {
      for (int i = 0; i < M; i++)
         for (int j = 0; j < N; j++) site[i][j] = Dense(t[i][j]);
   }
   std::complex<double> value(const std::vector<std::vector<int>>& spin, int oi = -1, int oj = -1, int l = 0, int r = 0, int u = 0, int d = 0) const {
      // bond values on the frontier: for each column the vertical bond, and the last horizontal one
      std::vector<std::pair<std::vector<int>, std::complex<double>>> now, next;
      now.push_back({std::vector<int>(N + 1, 0), 1});
      for (int i = 0; i < M; i++)
         for (int j = 0; j < N; j++) {
            next.clear();
            auto& t = site[i][j];
            int s = spin.empty() ? 0 : spin[i][j];
            if (i == oi && j == oj) {
               for (auto& [k, v] : now)
                  if (k[j] == u && k[N] == l) {
                     auto q = k;
                     q[j] = d;
                     q[N] = r;
                     next.push_back({q, v});
                  }
            } else {
               // group what differs only in the two indices that are summed here
               std::map<std::vector<int>, std::vector<std::complex<double>>> sums;
               for (auto& [k, v] : now) {
                  auto q = k;
                  int a = q[N], c = q[j];
                  q[N] = q[j] = 0;
                  auto& f = sums[q];
                  f.resize(t.d * t.r);
                  for (int x = 0; x < t.d; x++)
                     for (int y = 0; y < t.r; y++) f[x * t.r + y] += v * t(a, y, c, x, s);
               }
               for (auto& [k, f] : sums)
                  for (int x = 0; x < t.d; x++)
                     for (int y = 0; y < t.r; y++) {
                        auto q = k;
                        q[j] = x;
                        q[N] = y;
                        next.push_back({q, f[x * t.r + y]});
                     }
            }
            std::swap(now, next);
         }
      std::complex<double> sum = 0;
      for (auto& [k, v] : now) sum += v;
      return sum;
   }
};
inline bool close(std::complex<double> a, std::complex<double> b, double scale) { return std::abs(a - b) <= tolerance() * (scale + std::abs(b)); }
// state as amplitudes: index = spins in row-major order, first site fastest
using State = std::vector<std::complex<double>>;
inline std::vector<std::vector<int>> spins(int M, int N, int d, int index) {
   std::vector<std::vector<int>> s(M, std::vector<int>(N));
   for (int i = 0; i < M; i++)
      for (int j = 0; j < N; j++) {
         s[i][j] = index % d;
         index /= d;
      }
   return s;
}
inline int index_of(const std::vector<std::vector<int>>& s, int d) {
   int r = 0;
   for (int i = int(s.size()); i-- > 0;)
      for (int j = int(s[i].size()); j-- > 0;) r = r * d + s[i][j];
   return r;
}
inline int power(int d, int n) { return n ? d * power(d, n - 1) : 1; }
inline State state_of(const Network& n, int d) {
   State s(power(d, n.M * n.N));
   for (int i = 0; i < int(s.size()); i++) s[i] = n.value(spins(n.M, n.N, d, i));
   return s;
}
// matrix elements of an operator: I is the first index, O the second
inline std::complex<double> matrix(const Tensor& o, const std::vector<int>& in, const std::vector<int>& out) {
   std::map<std::string, int> at;
   for (size_t i = 0; i < in.size(); i++) {
      at["I" + std::to_string(i)] = in[i];
      at["O" + std::to_string(i)] = out[i];
   }
   return wide(element(o, at));
}
// apply to the state: out(o) = sum_i in(i) m(i, o)
inline State apply(const State& s, int M, int N, int d, const Positions& p, const std::function<std::complex<double>(const std::vector<int>&, const std::vector<int>&)>& m) {
   State r(s.size());
   int n = int(p.size());
   for (int i = 0; i < int(s.size()); i++) {
      auto in = spins(M, N, d, i);
      std::vector<int> from;
      for (auto& [x, y] : p) from.push_back(in[x][y]);
      for (int k = 0; k < power(d, n); k++) {
         auto out = in;
         std::vector<int> to;
         int rest = k;
         for (auto& [x, y] : p) {
            to.push_back(rest % d);
            out[x][y] = rest % d;
            rest /= d;
         }
         r[index_of(out, d)] += s[i] * m(from, to);
      }
   }
   return r;
}
inline State apply(const State& s, int M, int N, int d, const Positions& p, const Tensor& o) {
   return apply(s, M, N, d, p, [&](auto& a, auto& b) { return matrix(o, a, b); });
}
inline std::complex<double> dot(const State& a, const State& b) {
   std::complex<double> r = 0;
   for (size_t i = 0; i < a.size(); i++) r += std::conj(a[i]) * b[i];
   return r;
}
inline double norm(const State& a) { return std::sqrt(std::real(dot(a, a))); }
// same up to a positive or complex factor
inline bool proportional(const State& a, const State& b) {
   if (a.size() != b.size()) return false;
   double na = norm(a), nb = norm(b);
   if (!(na > 0) || !(nb > 0) || !std::isfinite(na) || !std::isfinite(nb)) return false;
   auto c = dot(b, a) / (nb * nb);
   double error = 0;
   for (size_t i = 0; i < a.size(); i++) error += std::norm(a[i] - c * b[i]);
   return std::sqrt(error) <= tolerance() * na;
}
inline Tensor filled(std::vector<Name> names, std::vector<Size> dimensions, uint64_t salt) {
   Tensor t(names, dimensions);
   uint64_t k = salt * 1000;
   t.set([&] { return number(k++); });
   return t;
}
// exp(x m) of an n-body operator as a function of in and out
struct Exponential {
   int d, n;
   std::vector<std::complex<double>> data;
   Exponential(const Tensor& o, int d, int n, double x) : d(d), n(n) {
      int size = power(d, n);
      std::vector<std::complex<double>> m(size * size), term(size * size), next(size * size);
      auto unpack = [&](int k) {
         std::vector<int> r;
         for (int i = 0; i < n; i++) {
            r.push_back(k % d);
            k /= d;
         }
         return r;
      };
      for (int a = 0; a < size; a++)
         for (int b = 0; b < size; b++) m[a * size + b] = x * matrix(o, unpack(a), unpack(b));
      data.assign(size * size, 0);
      for (int a = 0; a < size; a++) data[a * size + a] = term[a * size + a] = 1;
      for (int k = 1; k < 60; k++) {
         for (int a = 0; a < size; a++)
            for (int b = 0; b < size; b++) {
               next[a * size + b] = 0;
               for (int c = 0; c < size; c++) next[a * size + b] += term[a * size + c] * m[c * size + b] / double(k);
            }
         term = next;
         for (int a = 0; a < size * size; a++) data[a] += term[a];
      }
   }
   std::complex<double> operator()(const std::vector<int>& a, const std::vector<int>& b) const {
      int x = 0, y = 0;
      for (int i = n; i-- > 0;) {
         x = x * d + a[i];
         y = y * d + b[i];
      }
      return data[x * power(d, n) + y];
   }
};
