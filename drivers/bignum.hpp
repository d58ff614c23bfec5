// Exact exchange of scalar values with spec/Big.tla: {"k":"num","s":sign,"m":[base-4096 digits],"e":exponent}.
#pragma once
#include "common.hpp"
using u128 = unsigned __int128;

inline std::string num_text(bool neg, u128 m, long e) {
   if(m == 0) {
      e = 0;
   } else {
      while(m % 2 == 0) { m /= 2; ++e; }
   }
   std::string r = std::string("{\"k\":\"num\",\"s\":") + (neg ? "1" : "0") + ",\"m\":[";
   for(bool first = true; m != 0; m >>= 12, first = false) r += (first ? "" : ",") + std::to_string(static_cast<int>(m % 4096));
   return r + "],\"e\":" + std::to_string(e) + "}";
}
#ifdef STRICT_QUAD_PRECISION
using Widest = __float128;
inline bool w_nan(Widest x) { return isnanq(x); }
inline bool w_inf(Widest x) { return isinfq(x); }
inline bool w_neg(Widest x) { return signbitq(x); }
inline Widest w_frexp(Widest x, int* e) { return frexpq(x, e); }
inline Widest w_ldexp(Widest x, int e) { return ldexpq(x, e); }
#else
using Widest = long double;
inline bool w_nan(Widest x) { return std::isnan(x); }
inline bool w_inf(Widest x) { return std::isinf(x); }
inline bool w_neg(Widest x) { return std::signbit(x); }
inline Widest w_frexp(Widest x, int* e) { return std::frexp(x, e); }
inline Widest w_ldexp(Widest x, int e) { return std::ldexp(x, e); }
#endif
template <typename T>
std::string exact(T x) {
   if constexpr(std::is_same_v<T, bool> || std::is_integral_v<T>) {
      bool neg = x < T(0);
      u128 m = neg ? static_cast<u128>(-static_cast<__int128>(x)) : static_cast<u128>(x);
      return num_text(neg, m, 0);
   } else {
      Widest v = static_cast<Widest>(x);
      if(w_nan(v)) return R"({"k":"nan","s":0,"m":[],"e":0})";
      bool neg = w_neg(v);
      if(w_inf(v)) return std::string(R"({"k":"inf","s":)") + (neg ? "1" : "0") + R"(,"m":[],"e":0})";
      if(v == 0) return num_text(neg, 0, 0);
      int e = 0;
      Widest f = w_frexp(neg ? -v : v, &e);
      u128 m = static_cast<u128>(w_ldexp(f, 120));
      return num_text(neg, m, e - 120L);
   }
}
template <typename T>
std::string exact(spp::Strict<T> x) { return exact(x.val()); }

template <typename T>
T from_num(const J& j) {
   const auto& k = j.str("k");
   bool neg = j.num("s") == 1;
   u128 m = 0;
   auto d = j.vec("m");
   for(size_t i = d.size(); i-- > 0;) m = m * 4096 + static_cast<u128>(d[i]);
   long e = j.num("e");
   if constexpr(std::is_same_v<T, bool>) {
      return m != 0;
   } else if constexpr(std::is_integral_v<T>) {
      m <<= e;
      return neg ? static_cast<T>(-static_cast<__int128>(m)) : static_cast<T>(m);
   } else {
      Widest v;
      if(k == "nan") v = std::numeric_limits<long double>::quiet_NaN();
      else if(k == "inf") v = std::numeric_limits<long double>::infinity();
      else v = w_ldexp(static_cast<Widest>(m), static_cast<int>(e));
      return static_cast<T>(neg ? -v : v);
   }
}
template <typename T>
constexpr const char* tname() {
   if constexpr(std::is_same_v<T, bool>) return "bool";
   else if constexpr(std::is_same_v<T, int>) return "int";
   else if constexpr(std::is_same_v<T, long>) return "long";
   else if constexpr(std::is_same_v<T, unsigned>) return "uint";
   else if constexpr(std::is_same_v<T, unsigned long>) return "ulong";
   else if constexpr(std::is_same_v<T, float>) return "float";
   else if constexpr(std::is_same_v<T, double>) return "double";
   else if constexpr(std::is_same_v<T, long double>) return "ld";
   else return "quad";
}
// A returned scalar: its type and exact value.
template <typename T>
std::string typed(spp::Strict<T> x) { return okv(std::string("[\"") + tname<T>() + "\"," + exact(x) + "]"); }
template <typename T>
std::string typed(T x) { return okv(std::string("[\"") + tname<T>() + "\"," + exact(x) + "]"); }
template <typename F>
auto by_type(const std::string& t, F f) {
   if(t == "bool") return f(bool{});
   if(t == "int") return f(int{});
   if(t == "long") return f(long{});
   if(t == "uint") return f(unsigned{});
   if(t == "ulong") return f(static_cast<unsigned long>(0));
   if(t == "float") return f(float{});
   if(t == "double") return f(double{});
#ifdef STRICT_QUAD_PRECISION
   if(t == "quad") return f(spp::float128{});
#endif
   if(t == "ld") return f(static_cast<long double>(0));
   throw std::runtime_error("driver: type " + t);
}
