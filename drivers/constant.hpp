// Programs and histories that run both in constant evaluation and at run time (C19).
// J is a JSON value that constant evaluation can parse.
#pragma once
#include <strictpp/strict.hpp>

#include <cstdio>
#include <initializer_list>
#include <optional>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

struct J {
   enum K { INT, STR, ARR, OBJ } k = INT;
   long i = 0;
   std::string_view s;
   std::vector<std::string_view> keys;
   std::vector<J> a;

   constexpr bool has(std::string_view key) const {
      for(auto& q : keys)
         if(q == key) return true;
      return false;
   }
   constexpr const J& operator[](const char* key) const {
      for(std::size_t q = 0; q < keys.size(); ++q)
         if(keys[q] == key) return a[q];
      throw "driver: missing field";
   }
   constexpr const J& operator[](std::size_t n) const { return n < a.size() ? a[n] : throw "driver: missing element"; }
   constexpr const J& operator[](int n) const { return (*this)[static_cast<std::size_t>(n)]; }
   constexpr long num() const { return k == INT ? i : throw "driver: not a number"; }
   constexpr long num(const char* key) const { return (*this)[key].num(); }
   constexpr std::vector<long> vec() const {
      std::vector<long> r;
      for(auto& x : a) r.push_back(x.num());
      return r;
   }
   constexpr std::vector<long> vec(const char* key) const { return (*this)[key].vec(); }
   constexpr std::size_t size() const { return a.size(); }

   static constexpr J of(std::string_view t) {
      J r;
      std::size_t p = 0;
      r.parse(t, p);
      return r;
   }
   constexpr void parse(std::string_view t, std::size_t& p) {
      if(t[p] == '[' || t[p] == '{') {
         const bool o = t[p] == '{';
         k = o ? OBJ : ARR;
         for(++p; t[p] != ']' && t[p] != '}';) {
            if(o) {
               J key;
               key.parse(t, p);
               keys.push_back(key.s);
               ++p;
            }
            a.push_back(J{});
            a.back().parse(t, p);
            if(t[p] == ',') ++p;
         }
         ++p;
      } else if(t[p] == '"') {
         k = STR;
         const std::size_t b = ++p;
         while(t[p] != '"') ++p;
         s = t.substr(b, p - b);
         ++p;
      } else {
         if(t[p] == 't' || t[p] == 'f') {
            i = t[p] == 't';
            p += t[p] == 't' ? 4 : 5;
            return;
         }
         const bool neg = t[p] == '-';
         if(neg) ++p;
         for(; p < t.size() && t[p] >= '0' && t[p] <= '9'; ++p) i = 10 * i + (t[p] - '0');
         if(neg) i = -i;
      }
   }
};

template <auto F>
concept constant = requires { typename std::bool_constant<(F(), true)>; };

using namespace spp;

// Expression programs count floating values in quarters.
template <typename T>
constexpr T plain(const J& j) {
   if constexpr(std::is_floating_point_v<T>) return T(j.num()) / T(4);
   else return T(j.num());
}
template <typename T>
constexpr Strict<T> SS(const J& j) { return Strict<T>{plain<T>(j)}; }
template <typename T>
constexpr double scaled(Strict<T> x) {
   if constexpr(std::is_floating_point_v<T>) return static_cast<double>(x.val() * T(4));
   else return static_cast<double>(x.val());
}
// The expected value 0 stands for a run that must be rejected: everything is read, nothing compared.
constexpr bool matches(const J& want, const std::vector<double>& got) {
   if(want.k == J::INT) return true;
   if(want.size() != got.size()) return false;
   for(std::size_t q = 0; q < got.size(); ++q)
      if(got[q] != static_cast<double>(want[q].num())) return false;
   return true;
}
constexpr std::vector<ImplicitInt> to_idx(const std::vector<long>& v) {
   std::vector<ImplicitInt> r;
   for(long x : v) r.push_back(x);
   return r;
}
template <typename A>
constexpr void fill(A& a, const J& v) {
   using T = BuiltinTypeOf<A>;
   for(long i = 0; i < a.size().val(); ++i) a.un(i) = SS<T>(v["x"][static_cast<std::size_t>(i)]);
}
template <typename A>
constexpr bool holds(const A& a, const J& v) {
   using T = BuiltinTypeOf<A>;
   const J& x = v["x"];
   if(a.size().val() != static_cast<long>(x.size())) return false;
   for(long i = 0; i < a.size().val(); ++i)
      if(a.un(i).val() != plain<T>(x[static_cast<std::size_t>(i)])) return false;
   return true;
}
template <typename T>
constexpr Array1D<T> load1(const J& v) {
   Array1D<T> a(v.num("n"));
   fill(a, v);
   return a;
}
template <typename T>
constexpr Array2D<T> load2(const J& v) {
   Array2D<T> a(v.num("m"), v.num("n"));
   fill(a, v);
   return a;
}
template <typename R>
constexpr std::vector<double> elements(const R& r) {
   std::vector<double> v;
   for(long i = 0; i < r.size().val(); ++i) v.push_back(scaled(r.un(i)));
   return v;
}
template <typename R>
constexpr bool observe(const R& r, const J& want) {
   if(!matches(want, elements(r))) return false;
   std::vector<double> v;
   for(auto x : r) v.push_back(scaled(x));
   if(!matches(want, v)) return false;
   if constexpr(OneDimBaseType<R>) {
      Array1D<BuiltinTypeOf<R>> z = r;
      if(!matches(want, elements(z))) return false;
      v.clear();
      for(long i = 0; i < r.size().val(); ++i) v.push_back(scaled(r[i]));
   } else {
      Array2D<BuiltinTypeOf<R>> z = r;
      auto e = r.eval();
      if(!matches(want, elements(z)) || !matches(want, elements(e))) return false;
      v.clear();
      for(long i = 0; i < r.rows().val(); ++i)
         for(long j = 0; j < r.cols().val(); ++j) v.push_back(scaled(r(i, j)));
   }
   return matches(want, v);
}
template <typename R>
constexpr bool extent(const R& r, const J& want) {
   if(want.k == J::INT) return true;
   if constexpr(OneDimBaseType<R>) return want[0].num() == 1 && r.size().val() == want[2].num();
   else if(want[1].num() * want[2].num() == 0) return want[0].num() == 2 && r.size().val() == 0;
   else return want[0].num() == 2 && r.rows().val() == want[1].num() && r.cols().val() == want[2].num() && r.size().val() == want[1].num() * want[2].num();
}
template <typename Make, typename Fill, typename Same>
constexpr bool look(const J& c, const J& want, Make make, Fill fill, Same same) {
   const bool read = want.k == J::INT;
   const J &shape = read ? want : want[0], &first = read ? want : want[1], &second = read ? want : want[2];
   auto r = make();
   auto copy = r;
   if(!extent(r, shape) || !observe(r, first) || !same(c["v"])) return false;
   fill(c["w"]);
   return observe(copy, second) && observe(r, second) && same(c["w"]);
}
template <typename T>
constexpr std::vector<double> one(Strict<T> x) { return {scaled(x)}; }
template <typename P>
constexpr std::vector<double> place(const P& p) {
   if constexpr(std::tuple_size_v<P> == 2) return {scaled(p.first), scaled(p.second)};
   else return {scaled(std::get<0>(p)), scaled(std::get<1>(p)), scaled(std::get<2>(p))};
}

// Histories written out as source.
template <typename R, typename A>
constexpr bool self(R& r, A& a) {
   static_assert(std::is_same_v<R, A>);
   return &r == &a;
}
template <typename T, typename U>
constexpr bool is(Strict<U> x, T want) {
   static_assert(std::is_same_v<T, U>);
   if(x.val() != want) return false;
   if constexpr(std::is_floating_point_v<T>) return want != T(0) || __builtin_copysignl(1.0L, x.val()) == __builtin_copysignl(1.0L, want);
   return true;
}
template <typename T>
constexpr bool is(const T& x, T want) { return is(Strict<T>{x}, want); }
// zeros of either sign are the same number
template <typename T, typename U>
constexpr bool near_zero_is(U x, T want) {
   if constexpr(std::is_same_v<U, Strict<T>>) return x.val() == want;
   else return false;
}
template <typename B>
constexpr bool truth(B b, int want) {
   static_assert(std::is_same_v<B, StrictBool>);
   return b.val() == (want != 0);
}
template <typename A>
constexpr bool holds1(const A& a, std::initializer_list<long> d) {
   using T = BuiltinTypeOf<A>;
   if(a.size().val() != static_cast<long>(d.size())) return false;
   long i = 0;
   for(long x : d)
      if(a.un(i++).val() != static_cast<T>(x)) return false;
   return true;
}
template <typename A>
constexpr bool holds2(const A& a, long m, long n, std::initializer_list<long> d) { return a.rows().val() == m && a.cols().val() == n && holds1(a, d); }

// Run-time side: the same call outside constant evaluation.
inline int failures = 0;
template <typename F>
void at_run_time(int id, bool rejected, F f) {
   const char* got = "false";
   try {
      if(f()) got = "true";
   } catch(const StrictException&) {
      got = "rejected";
   } catch(const char* w) {
      got = w;
   }
   if(std::string_view{got} != (rejected ? "rejected" : "true")) {
      std::printf("%d %s\n", id, got);
      ++failures;
   }
}
