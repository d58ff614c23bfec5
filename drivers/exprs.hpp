// Runs one expression program: builds the expression once, looks at it, overwrites the
// operands, looks again, and reports whether the operands were left alone.
#pragma once
#define SHOW_SCALE 4
#include "common.hpp"
using namespace spp;

template <typename T>
T plain(const J& j) {
   if constexpr(std::is_floating_point_v<T>) return T(j.num()) / T(4);
   else return T(j.num());
}
template <typename T>
Strict<T> SS(const J& j) { return Strict<T>{plain<T>(j)}; }
template <typename A>
void fill(A& a, const J& v) {
   using T = BuiltinTypeOf<A>;
   for(long i = 0; i < a.size().val(); ++i) a.un(i) = SS<T>(v["x"][static_cast<size_t>(i)]);
}
template <typename A>
bool holds(A& a, const J& v) {
   using T = BuiltinTypeOf<A>;
   const J& x = v["x"];
   if(a.size().val() != static_cast<long>(x.size())) return false;
   for(long i = 0; i < a.size().val(); ++i)
      if(a.un(i).val() != plain<T>(x[static_cast<size_t>(i)])) return false;
   return true;
}
template <typename T>
Array1D<T> load1(const J& v) {
   Array1D<T> a(v.num("n"));
   fill(a, v);
   return a;
}
template <typename T>
Array2D<T> load2(const J& v) {
   Array2D<T> a(v.num("m"), v.num("n"));
   fill(a, v);
   return a;
}

template <typename F>
std::string attempt(F f) {
   try {
      return f();
   } catch(const StrictException&) {
      return "\"err\"";
   }
}
template <typename R>
std::string elements(const R& r) {
   std::string s = "[";
   for(long i = 0; i < r.size().val(); ++i) s += (i ? "," : "") + show(r.un(i));
   return s + "]";
}
// The elements by every kind of access, in different orders, and after evaluation into arrays.
template <typename R>
std::string observe(const R& r) {
   return attempt([&]() -> std::string {
      const std::string s = elements(r);
      const long n = r.size().val();
      auto bad = [](const char* w) { return std::string("\"disagree ") + w + "\""; };
      std::string b = "]";
      for(long i = n; i-- > 0;) {
         if constexpr(OneDimBaseType<R>) b = (i ? "," : "") + show(r[i]) + b;
         else b = (i ? "," : "") + show(r.un(i)) + b;
      }
      if("[" + b != s) return bad("backwards");
      b = "[";
      for(auto x : r) b += (b.size() > 1 ? "," : "") + show(x);
      if(b + "]" != s) return bad("range-for");
      if constexpr(OneDimBaseType<R>) {
         Array1D<BuiltinTypeOf<R>> z = r;
         if(elements(z) != s) return bad("evaluation");
         z = r;
         if(elements(z) != s) return bad("assignment");
      } else {
         Array2D<BuiltinTypeOf<R>> z = r;
         if(elements(z) != s) return bad("evaluation");
         if(!(z.rows() == r.rows() && z.cols() == r.cols()) && n != 0) return bad("evaluated shape");
         if((z.rows() == 0_sl) != (z.cols() == 0_sl)) return bad("degenerate shape");
         b = "[";
         for(long i = 0; i < r.rows().val(); ++i)
            for(long j = 0; j < r.cols().val(); ++j) b += (b.size() > 1 ? "," : "") + show(r(i, j));
         if(b + "]" != s) return bad("(i, j)");
      }
      auto e = r.eval();
      if(elements(e) != s) return bad("eval()");
      return s;
   });
}
template <typename R>
std::string extent(const R& r) {
   if constexpr(OneDimBaseType<R>) return "[1,0," + std::to_string(r.size().val()) + "]";
   else if(r.rows().val() * r.cols().val() != r.size().val()) return "\"bad size\"";
   else return "[2," + std::to_string(r.rows().val()) + "," + std::to_string(r.cols().val()) + "]";
}
static std::string seen;
template <typename Make, typename Fill, typename Same>
std::string look(const J& c, Make make, Fill fill, Same same) {
   seen = "[]";
   auto r = make();
   auto copy = r;
   std::string o = okv(extent(r));
   std::string a = observe(r);
   if(!same(c["v"])) a = "\"operands changed\"";
   fill(c["w"]);
   std::string b = observe(copy);
   if(b != observe(r)) b = "\"copy differs\"";
   if(!same(c["w"])) b = "\"operands changed\"";
   seen = "[" + a + "," + b + "]";
   return o;
}
// A query over an expression: the answer only.
template <typename F>
std::string ask(F f) {
   seen = "[]";
   return okv(f());
}
// Square roots and powers are compared as the nearest quarter.
template <typename T>
std::string near1(Strict<T> x) {
   T y = x.val() * T(4);
   T r = std::round(y);
   if(std::fabs(y - r) < (sizeof(T) == 4 ? T(.05) : T(1e-3))) return "[" + std::to_string(static_cast<long>(r)) + "]";
   return "[\"" + std::to_string(static_cast<double>(y)) + "\"]";
}
template <typename T>
std::string one(Strict<T> x) { return "[" + show(x) + "]"; }
template <typename P>
std::string place(const P& p) {
   std::string s = "[";
   if constexpr(std::tuple_size_v<P> == 2) s += show(p.first.val()) + "," + show(p.second);
   else s += show(std::get<0>(p).val()) + "," + show(std::get<1>(p).val()) + "," + show(std::get<2>(p));
   return s + "]";
}
template <typename T>
std::string raw(const T* p, long n) {
   if((p == nullptr) != (n == 0)) return "\"null\"";
   std::string s = "[";
   for(long i = 0; i < n; ++i) s += (i ? "," : "") + show(p[i]);
   return s + "]";
}
template <typename R>
auto unusual(const R& r) {
   return spp::generate(r, [](auto x) {
      using T = typename decltype(x)::value_type;
      using L = std::numeric_limits<T>;
      return x.val() == T(1) ? Strict<T>{L::infinity()} : x.val() == T(2) ? Strict<T>{-L::infinity()} : x.val() == T(3) ? Strict<T>{L::quiet_NaN()} : x;
   });
}
