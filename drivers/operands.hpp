// Operands holding given values, in several representations: owners, slices of larger arrays
// whose other elements are not numbers, constants, matrices and expressions.
#pragma once
#include "bignum.hpp"
#include <vector>

template <typename T>
std::vector<T> nums(const J& j) {
   std::vector<T> r;
   for(auto& x : j.a) r.push_back(from_num<T>(x));
   return r;
}
template <typename T>
spp::Array1D<T> plain1(const std::vector<T>& v) {
   spp::Array1D<T> a(spp::Size{static_cast<long>(v.size())});
   for(size_t i = 0; i < v.size(); ++i) a[static_cast<long>(i)] = spp::Strict<T>{v[i]};
   return a;
}
template <typename T>
spp::Array2D<T> plain2(const std::vector<T>& v, long m, long n) {
   spp::Array2D<T> a(spp::Rows{m}, spp::Cols{n});
   for(size_t i = 0; i < v.size(); ++i) a.un(static_cast<long>(i)) = spp::Strict<T>{v[i]};
   return a;
}
template <typename T>
spp::Strict<T> junk() { return spp::Strict<T>{std::numeric_limits<T>::quiet_NaN()}; }

constexpr long kinds1 = 7;
template <typename T, typename F>
std::string operand1(const std::vector<T>& v, long kind, F f) {
   using namespace spp;
   const long n = static_cast<long>(v.size());
   Array1D<T> a = plain1(v);
   switch(kind % kinds1) {
   case 0: return f(a);
   case 1: return f(std::as_const(a));
   case 2: {
      Array1D<T> b(Size{2 * n + 1}, Value{junk<T>()});
      for(long i = 0; i < n; ++i) b[2 * i + 1] = a[i];
      return f(b(place::odd));
   }
   case 3: {
      Array1D<T> b(Size{n});
      for(long i = 0; i < n; ++i) b[n - 1 - i] = a[i];
      const auto& cb = b;
      auto s = cb(place::reverse);
      return f(s);
   }
   case 4: return f(-(-a));
   case 5: {
      Array1D<T, Aligned> b = a;
      return f(b);
   }
   default: {
      if(n == 0) return f(a(place::all));
      Array2D<T> b(Rows{3}, Cols{n}, Value{junk<T>()});
      for(long i = 0; i < n; ++i) b(1, i) = a[i];
      return f(b.row(1));
   }
   }
}
constexpr long kinds2 = 4;
template <typename T, typename F>
std::string operand2(const std::vector<T>& v, long m, long n, long kind, F f) {
   using namespace spp;
   Array2D<T> a = plain2(v, m, n);
   switch(kind % kinds2) {
   case 0: return f(a);
   case 1: return f(std::as_const(a));
   case 2: {
      Array2D<T> b(Rows{m + 2}, Cols{2 * n + 1}, Value{junk<T>()});
      for(long i = 0; i < m; ++i)
         for(long j = 0; j < n; ++j) b(i + 1, 2 * j) = a(i, j);
      return f(b(seqN{1, m}, seqN{0, n, 2}));
   }
   default: return f(-(-a));
   }
}
// A shape for n elements: the most square one, or a single row.
inline std::pair<long, long> shape_of(long n, long w) {
   long m = 1;
   for(long k = 1; k * k <= n; ++k)
      if(n % k == 0) m = k;
   if(n == 0) return w % 2 ? std::pair<long, long>{0, 0} : std::pair<long, long>{0, 0};
   return w % 2 ? std::pair<long, long>{m, n / m} : std::pair<long, long>{n / m, m};
}
